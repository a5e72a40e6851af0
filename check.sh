#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property from /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPROXY=off GOTOOLCHAIN=local GOPATH=${GOPATH:-/root/go}
if [ ! -x bin/govc ] || [ -n "$(find govc -name '*.go' -newer bin/govc -print -quit)" ]; then
  bash setup.sh || exit 2
fi
exec bin/govc check -repo /repo -verif "$here" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
