#!/bin/bash
# build.sh DIR [REPO]: builds the simulator with the code under test from REPO (default /repo) into DIR/mqttsim.
# Everything it writes goes to DIR and to Go's build cache.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
dir=$1
repo=${2:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GO111MODULE=on CGO_ENABLED=0
mkdir -p "$dir"
cd "$here/sim"
if [ "$repo" != /repo ]; then
  cp go.mod "$dir/go.mod"
  go mod edit -replace "github.com/waj334/tinygo-mqtt=$repo" "$dir/go.mod"
  mod=-modfile=$dir/go.mod
fi
go build -o "$dir/instr" ./cmd/instr
"$dir/instr" -repo "$repo" -out "$dir/gen"
go build $mod -overlay "$dir/gen/overlay.json" -o "$dir/mqttsim" ./cmd/mqttsim
