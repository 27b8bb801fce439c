#!/bin/bash
# Torture test of the instrumenter and the scheduler: a package full of
# channels, selects, labels, timers, pipes and locks is instrumented like the
# repository and run under many seeds; traces must be right, runs repeatable,
# recorded schedules replayable, and the race detector silent except for the
# planted race (exactly "racy: 1" at the end of the -race run).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -a "${VERIF_REPO:-/repo}" "$tmp/repo"
mkdir "$tmp/repo/pkg/tort"
cp "$here"/*.go "$tmp/repo/pkg/tort/"
VERIF_REPO="$tmp/repo" "$here/../../check.sh" build "$tmp/b"
cp -r "$here/drv" "$tmp/b/src/"
cd "$tmp/b/src"
go build -o ../d ./drv
CGO_ENABLED=1 go build -race -o ../dr ./drv
../d
../dr
