#!/bin/bash
# usage: run.sh ID quick|thorough      run one check against the current tree of /repo
#        run.sh replay FILE            run the failing case of a replay file again
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD
export VERIF_DIR VERIF_SEED=${VERIF_SEED:-1}
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GONOSUMDB='*' CGO_ENABLED=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export PATH=$PATH:/usr/local/go/bin

build=$(mktemp -d "${TMPDIR:-/tmp}/vmon-build-XXXXXX") || exit 2
trap 'rm -rf "$build"' EXIT
cp harness/go.mod harness/go.sum "$build/" || exit 2

compile() { # compile OUT [flags]
	out=$1; shift
	(cd harness && go build -modfile="$build/go.mod" "$@" -o "$build/$out" .) || { echo "the monitor does not build against /repo" >&2; exit 2; }
}
race() { case " $RACE_CHECKS " in *" $1 "*) echo -race;; esac; }
RACE_CHECKS="C12 C19 C25"

case "$1" in
setup)
	compile vmon; compile vmon -race; exit 0;;
replay)
	id=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)
	compile vmon $(race "$id"); "$build/vmon" replay "$2"; exit $?;;
case)
	compile vmon $(race "$2"); "$build/vmon" case "$2" "$3" "$4"; exit $?;;
esac
compile vmon $(race "$1")
TMPDIR=$build "$build/vmon" run "$1" "${2:-${VERIF_TIER:-quick}}"
