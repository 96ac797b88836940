#!/bin/bash
# setup.sh: builds the framework once, so that the checks find a warm build cache and a failure shows early.
here=$(cd "$(dirname "$0")/.." && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mqttsim.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$here/evidence/replays"
"$here/bin/build.sh" "$tmp"
