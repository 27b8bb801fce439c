#!/bin/bash
# check.sh build DIR | check PROP | replay FILE | selftest [PROP] [BATCHES]
# Builds the simulation from /repo's working tree in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cmd=$1; shift
scratch=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
build() {
    local d=$1 log=$scratch/build.log
    mkdir -p "$d/src" "$d/run" || return 1
    cp -r "$here/sim/instrument" "$d/instrument" || return 1
    (cd "$d/instrument" && go build -o "$d/instr" .) || return 1
    "$d/instr" -repo "$repo" -out "$d/src" || return 1
    cp -r "$here/sim/vsim" "$here/sim/vsync" "$here/sim/vos" "$d/src/" || return 1
    cp -r "$here/sim/harness" "$d/src/vharness" || return 1
    cp "$repo/examples/json/json.bnf" "$d/src/vharness/json.bnf" || return 1
    (cd "$d/src" && go build -o "$d/vharness" ./vharness) || return 1
    (cd "$d/src" && CGO_ENABLED=1 go build -race -o "$d/vharness-race" ./vharness) || return 1
}
case $cmd in
build)
    build "$1"; exit ;;
setup) # nothing is kept: warm the compiler's cache and prove that it builds
    build "$scratch" >"$scratch/log" 2>&1 || { cat "$scratch/log" >&2; exit 2; }
    exit 0 ;;
check)
    build "$scratch" >"$scratch/log" 2>&1 || { cat "$scratch/log" >&2; echo "ERROR: the simulation does not build from $repo" >&2; exit 2; }
    "$scratch/vharness" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -norace "$scratch/vharness" -race "$scratch/vharness-race" -verif "$here" -scratch "$scratch/run"
    exit ;;
replay)
    build "$scratch" >"$scratch/log" 2>&1 || { cat "$scratch/log" >&2; exit 2; }
    "$scratch/vharness" replay -file "$1" -norace "$scratch/vharness" -race "$scratch/vharness-race" -verif "$here" -scratch "$scratch/run"
    exit ;;
selftest)
    build "$scratch" >"$scratch/log" 2>&1 || { cat "$scratch/log" >&2; exit 2; }
    "$scratch/vharness" selftest -prop "${1:-}" -runs "${2:-12}" -seed "${VERIF_SEED:-1}" -norace "$scratch/vharness" -race "$scratch/vharness-race" -verif "$here" -scratch "$scratch/run"
    exit ;;
esac
echo "usage: check.sh check PROP [quick|thorough] | replay FILE | selftest [PROP] [BATCHES] | build DIR" >&2
exit 2
