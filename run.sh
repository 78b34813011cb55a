#!/bin/bash
# run.sh check ID | replay FILE | selftest [ID...]
# Builds the driver from /verif/sim and runs it; VERIF_SEED and VERIF_TIER are
# honoured. Works from empty caches, offline.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
goroot=/opt/veriftools/go1.23.12
export VERIF_DIR="$here" GOROOT=$goroot GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off
export GOCACHE="$here/.work/gocache" GOPATH="${GOPATH:-/root/go}"
mkdir -p "$here/.work" || exit 2
bin="$here/.work/simctl.$$"
trap 'rm -f "$bin"' EXIT
(cd "$here/sim" && CGO_ENABLED=0 "$goroot/bin/go" build -o "$bin" ./simctl) || { echo "run.sh: the driver does not build" >&2; exit 2; }
"$bin" "$@"
