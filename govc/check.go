package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// check: decide one property. Exit 0: every obligation of the property's functions
// is discharged (or is a listed known finding); exit 1 with VIOLATION otherwise.

type knownFinding struct {
	Property   string
	Obligation string
	What       string
}

func loadKnown(file string) (r []knownFinding) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(data), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "finding:") {
			continue
		}
		var k knownFinding
		rest := strings.TrimSpace(ln[len("finding:"):])
		for rest != "" {
			w := rest
			if i := strings.IndexByte(rest, ' '); i >= 0 {
				w = rest[:i]
			}
			if strings.HasPrefix(w, "property=") {
				k.Property = w[9:]
			} else if strings.HasPrefix(w, "obligation=") {
				k.Obligation = w[11:]
			} else {
				break
			}
			rest = strings.TrimSpace(rest[len(w):])
		}
		k.What = rest
		r = append(r, k)
	}
	return
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "tier")
	noReplay := fs.Bool("noreplay", false, "skip the search for a failing input")
	if fs.Parse(args) != nil || *prop == "" {
		fmt.Println("usage: govc check -property ID")
		return 2
	}
	t0 := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	deadline := t0.Add(560 * time.Second)
	per := 150 * time.Second
	if *tier == "thorough" {
		per = 600 * time.Second
		deadline = t0.Add(3000 * time.Second)
	}
	S, err := loadSpecs(filepath.Join(*verif, "contracts"))
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	P, err := loadProgram(*repo, loadPatterns)
	if err != nil {
		fmt.Println("ERROR loading", *repo, err)
		return 2
	}
	loadMs := time.Since(t0).Milliseconds()
	var cs, trusted []*Contract
	var skipped []string
	for _, n := range S.Order {
		c := S.C[n]
		if !hasStr(c.Props, *prop) {
			continue
		}
		if c.Trusted || c.Inline {
			if c.Trusted {
				trusted = append(trusted, c)
			}
			continue
		}
		if c.Helper && P.funcs[baseName(n)] == nil {
			skipped = append(skipped, n)
			continue
		}
		cs = append(cs, c)
	}
	if len(cs) == 0 {
		fmt.Println("ERROR no contracts for property", *prop)
		return 2
	}
	rem := func() time.Duration {
		d := time.Until(deadline)
		if d > per {
			d = per
		}
		if d < 10*time.Second {
			d = 10 * time.Second
		}
		return d
	}
	known := loadKnown(filepath.Join(*verif, "known-findings.txt"))
	isKnown := func(ob string) *knownFinding {
		for i, k := range known {
			if k.Property == *prop && k.Obligation == ob {
				return &known[i]
			}
		}
		return nil
	}
	hasNew := func(r *FuncResult) bool {
		for ob, s := range r.Labels {
			if s != "proved" && isKnown(ob) == nil {
				return true
			}
		}
		return false
	}
	rs := runAll(P, S, cs, 8, rem())
	// undecided obligations get a second, less contended run
	retry := func(rs []*FuncResult, long bool) {
		for i, r := range rs {
			if !hasNew(r) {
				continue
			}
			und := true
			for _, s := range r.Labels {
				if s == "refuted" {
					und = false
				}
			}
			if !und || r.Err != "" && !strings.Contains(r.Err, "budget") || time.Until(deadline) < 60*time.Second {
				continue
			}
			solverScale = 2
			r2 := verifyFunction(P, S, S.C[r.Func], rem())
			solverScale = 1
			r2.Notes = append(r2.Notes, "second run")
			rs[i] = r2
		}
	}
	retry(rs, true)
	// a failing helper contract is only a failed lemma: verify its users against its body instead
	var demoted []string
	for round := 0; round < 3; round++ {
		bad := map[string]bool{}
		for _, r := range rs {
			if c := S.C[r.Func]; c.Helper && !c.Inline && !strings.Contains(r.Func, "@") && hasNew(r) {
				bad[r.Func] = true
			}
		}
		if len(bad) == 0 {
			break
		}
		for n := range bad {
			S.C[n].Inline = true
			demoted = append(demoted, n)
		}
		var redo []*Contract
		var keep []*FuncResult
		for _, r := range rs {
			if bad[r.Func] {
				continue
			}
			use := false
			for _, u := range r.Uses {
				if bad[u] {
					use = true
				}
			}
			if use {
				redo = append(redo, S.C[r.Func])
			} else {
				keep = append(keep, r)
			}
		}
		n2 := runAll(P, S, redo, 8, rem())
		retry(n2, true)
		rs = append(keep, n2...)
	}
	for _, n := range demoted {
		S.C[n].Inline = false
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Func < rs[j].Func })
	sort.Strings(demoted)

	type failure struct {
		Obligation string
		Status     string
		R          *FuncResult
		V          *VC
	}
	var fails []failure
	knownHit := map[string]*knownFinding{}
	total, proved := 0, 0
	by := map[string]int{}
	trust := map[string]bool{}
	var solverMs int64
	var funcs, bounded []map[string]interface{}
	uses := map[string]bool{}
	for _, r := range rs {
		solverMs += r.SolverMs
		for _, t := range r.Trust {
			trust[t] = true
		}
		for _, u := range r.Uses {
			uses[u] = true
		}
		for k, v := range r.By {
			by[k] += v
		}
		kf := 0
		names := map[string]bool{}
		for _, v := range r.Failed {
			if k := isKnown(v.Name); k != nil {
				knownHit[v.Name] = k
				kf++
				continue
			}
			if !names[v.Name] {
				names[v.Name] = true
				best := v
				for _, w := range r.Failed {
					if w.Name == v.Name && w.Status == "refuted" && best.Status != "refuted" {
						best = w
					}
				}
				fails = append(fails, failure{v.Name, best.Status, r, best})
			}
		}
		total += r.Total - kf
		proved += r.Proved
		m := map[string]interface{}{"function": r.Func, "source": r.Src, "contract": r.File, "obligations": r.Total, "discharged": r.Proved, "status": r.Status,
			"return_paths": r.Paths, "loops_with_inferred_invariants": r.Loops, "wall_ms": r.Ms, "solver_ms": r.SolverMs, "labels": r.Labels, "nopanic": S.C[r.Func].NoPanic}
		if len(r.Inlined) > 0 {
			m["inlined_bodies"] = r.Inlined
		}
		if r.Err != "" {
			m["error"] = r.Err
		}
		if b := S.C[r.Func].Bounded; b != "" {
			m["bounded"] = b
			bounded = append(bounded, m)
		} else {
			funcs = append(funcs, m)
		}
	}
	var tb []string
	for t := range trust {
		tb = append(tb, t)
	}
	for u := range uses {
		if c := S.C[u]; c != nil && !c.Trusted && !hasStr(c.Props, *prop) {
			tb = append(tb, "contract proved by check "+strings.Join(c.Props, ",")+": "+u)
		}
	}
	tb = append(tb, "govc (symbolic execution of go/ssa, /verif/govc) and its models of the Go runtime, math/big and the standard library", "SMT back ends z3 and cvc5", "golang.org/x/tools/go/ssa as the meaning of the Go source")
	sort.Strings(tb)
	sort.Slice(fails, func(i, j int) bool { return fails[i].Obligation < fails[j].Obligation })

	for ob, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (obligation %s)\n", *prop, k.What, ob)
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": proved,
		"checker_cmd":  fmt.Sprintf("bin/govc check -property %s -tier %s", *prop, *tier),
		"trusted_base": tb,
		"functions":    funcs, "functions_under_contract": len(funcs), "by_backend": by, "solver_ms": solverMs, "load_ms": loadMs,
		"samples": sampleOf(rs),
	}
	if len(bounded) > 0 {
		cov["bounded"] = bounded
	}
	if len(demoted) > 0 {
		cov["helper_contracts_dropped_body_used_instead"] = demoted
	}
	if len(skipped) > 0 {
		cov["helper_contracts_without_function"] = skipped
	}
	if len(knownHit) > 0 {
		var ks []string
		for ob, k := range knownHit {
			ks = append(ks, ob+": "+k.What)
		}
		sort.Strings(ks)
		cov["known_findings"] = ks
	}
	code := 0
	var viol []string
	if len(fails) > 0 {
		code = 1
		out := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(out, 0o755)
		var rep *replayResult
		if !*noReplay {
			var fnames []string
			for _, f := range fails {
				fnames = append(fnames, f.Obligation)
			}
			rep = runReplay(*repo, *verif, *prop, seed, fnames)
		}
		rec := map[string]interface{}{"property": *prop, "seed": seed, "tier": *tier}
		var obs []map[string]interface{}
		for _, f := range fails {
			fmt.Printf("FAILED %-8s %s -- %s\n", f.Status, f.Obligation, f.V.Detail)
			o := map[string]interface{}{"obligation": f.Obligation, "status": f.Status, "detail": f.V.Detail, "path": f.V.Path, "model": f.V.Model, "source": f.R.Src, "contract": f.R.File, "solver": f.V.Solver}
			if f.R.Err != "" {
				o["verifier_output"] = f.R.Err
			}
			obs = append(obs, o)
		}
		rec["failed_obligations"] = obs
		if rep != nil {
			rec["replay_command"] = rep.Cmd
			rec["failing_inputs"] = rep.Fails
			rec["replay_output"] = rep.Tail
			rec["replay_note"] = rep.Note
		}
		file := filepath.Join(out, *prop+".json")
		data, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(file, data, 0o644)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, file)
		if rep == nil || len(rep.Fails) == 0 {
			line += " no-failing-input-found"
		} else {
			for i, f := range rep.Fails {
				if i < 5 {
					fmt.Println("FAILING-INPUT", f)
				}
			}
		}
		viol = append(viol, line)
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": levelOf(S, cs), "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "assumptions": tb,
	}
	if len(viol) > 0 {
		ev["violations"] = len(viol)
	} else {
		ev["violations"] = 0
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), data, 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	fmt.Printf("property %s: %d functions under contract, %d/%d obligations discharged, %d known findings, %.1fs\n", *prop, len(rs), proved, total, len(knownHit), time.Since(t0).Seconds())
	for _, l := range viol {
		fmt.Println(l)
	}
	return code
}

func levelOf(S *Specs, cs []*Contract) string { return "proof" }

func sampleOf(rs []*FuncResult) []string {
	var s []string
	for _, r := range rs {
		for _, v := range r.VCs {
			if v.Status == "proved" && strings.Contains(v.Name, "/ensures") {
				s = append(s, v.Name+": "+v.Detail+" ["+v.Solver+"]")
				break
			}
		}
		if len(s) >= 6 {
			break
		}
	}
	return s
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---------- replay: search a concrete failing input on the real code ----------

type replayResult struct {
	Cmd   string
	Fails []string
	Tail  string
	Note  string
}

// Every file replay/<prop>*.go.txt holds an external or in-package test laid over
// /repo by go test -overlay; its first line is "// dir: <package directory>".
func runReplay(repo, verif, prop string, seed int, obs []string) *replayResult {
	rr := &replayResult{}
	files, _ := filepath.Glob(filepath.Join(verif, "replay", prop+"_*.go.txt"))
	if len(files) == 0 {
		rr.Note = "no replay harness for this property"
		return rr
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		rr.Note = err.Error()
		return rr
	}
	defer os.RemoveAll(tmp)
	// stand-in for the native wasmer library, so that packages importing it link
	if out, err := exec.Command("gcc", "-shared", "-fPIC", "-o", filepath.Join(tmp, "libwasmer_linux_amd64.so"), filepath.Join(verif, "replay", "wasmer_stub.c")).CombinedOutput(); err != nil {
		rr.Note = "stub library: " + string(out)
	}
	ov := map[string]map[string]string{"Replace": {}}
	dirs := map[string]bool{}
	common, _ := filepath.Glob(filepath.Join(verif, "replay", "common_*.go.txt"))
	for _, f := range append(files, common...) {
		data, _ := os.ReadFile(f)
		first := strings.SplitN(string(data), "\n", 2)[0]
		d := strings.TrimSpace(strings.TrimPrefix(first, "// dir:"))
		if strings.HasPrefix(filepath.Base(f), "common_") {
			if !dirs[d] {
				continue
			}
		} else {
			dirs[d] = true
		}
		ov["Replace"][filepath.Join(repo, d, strings.ToLower(strings.TrimSuffix(filepath.Base(f), ".go.txt"))+"_zzverif_test.go")] = f
	}
	oj, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	var ds []string
	for d := range dirs {
		ds = append(ds, "./"+d)
	}
	sort.Strings(ds)
	args := append([]string{"test", "-overlay", of, "-vet=off", "-count=1", "-timeout", "200s", "-run", "^TestVerif" + prop}, ds...)
	cmd := exec.Command("timeout", append([]string{"-k", "5", "240", "go"}, args...)...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1", "CGO_LDFLAGS=-L"+tmp+" -Wl,-rpath,"+tmp, "LD_LIBRARY_PATH="+tmp, "GOVC_SEED="+strconv.Itoa(seed), "GOVC_OBLIGATIONS="+strings.Join(obs, ";"))
	rr.Cmd = "cd " + repo + " && go " + strings.Join(args, " ") + "   (overlay lays " + strings.Join(files, ", ") + " over the package; CGO_LDFLAGS/LD_LIBRARY_PATH point to a build of replay/wasmer_stub.c)"
	out, _ := cmd.CombinedOutput()
	for _, ln := range strings.Split(string(out), "\n") {
		if i := strings.Index(ln, "REPLAY-FAIL "); i >= 0 && len(rr.Fails) < 40 {
			rr.Fails = append(rr.Fails, ln[i+len("REPLAY-FAIL "):])
		}
	}
	tail := string(out)
	if len(tail) > 4000 {
		tail = tail[len(tail)-4000:]
	}
	rr.Tail = tail
	return rr
}
