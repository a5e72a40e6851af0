#!/bin/bash
# newseed.sh ID PROPERTY PKGDIR TEST_FILE "needs" "what it breaks" [check]
# Takes the edit present in the scratch worktree /tmp/seedwt (made by 'seedwt.sh'),
# confirms that it builds, passes the stable tests, that the demonstration passes
# without and fails with it, and keeps it under seeded/ID. Then runs the check on it.
set -u
id=$1 prop=$2 dir=$3 test=$4 needs=$5 breaks=$6
here=$(cd "$(dirname "$0")/.." && pwd)
wt=/tmp/seedwt
out=$here/seeded/$id
mkdir -p "$out"
git -C $wt diff > "$out/patch.diff"
[ -s "$out/patch.diff" ] || { echo "no edit"; exit 1; }
cp "$test" "$out/demo_test.go.txt"
cp "$here/replay/wasmer_stub.c" "$out/wasmer_stub.c"
cat > "$out/demo.sh" <<'D'
#!/bin/bash
# Lays demo_test.go.txt over a package of the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2; trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
gcc -shared -fPIC -o "$tmp/libwasmer_linux_amd64.so" "$here/wasmer_stub.c" || exit 2
export CGO_LDFLAGS="-L$tmp" LD_LIBRARY_PATH=$tmp
echo "{\"Replace\":{\"$repo/@DIR@/zz_demo_test.go\":\"$here/demo_test.go.txt\"}}" > "$tmp/overlay.json"
timeout 280 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo' "./@DIR@"
D
sed -i "s#@DIR@#$dir#g" "$out/demo.sh"; chmod +x "$out/demo.sh"
python3 - "$out/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],"w"),indent=1)
P
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
cd $wt || exit 1
go list -export -f '{{.ImportPath}}' ./... >/dev/null || { echo "DOES NOT BUILD"; exit 1; }
go test ./cmd/testgen/... ./crypto/... ./fuzz/util/... ./fuzz/weightedroulette/... ./ipc/marshaling/... ./mandos-go/... ./math/... 2>&1 | grep -v "no test files" | grep -v ^ok
bash "$out/demo.sh" > /tmp/demo.bad 2>&1; bad=$?
git -C $wt stash -q; bash "$out/demo.sh" > /tmp/demo.good 2>&1; good=$?; git -C $wt stash pop -q
echo "$id: demo clean=$good patched=$bad"
[ $good = 0 ] || tail -20 /tmp/demo.good
[ $bad != 0 ] || echo "DEMO DOES NOT FAIL"
grep -E "build failed|undefined|cannot use" /tmp/demo.bad /tmp/demo.good
if [ "${7:-check}" = check ]; then
  cd "$here"; /tmp/govc check -repo $wt -verif /tmp/seedverif -property "$prop" -tier quick | cut -c1-220 | tail -6
fi
