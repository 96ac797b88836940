#!/bin/bash
# replay.sh FILE [-v]: executes a recorded violation again on /repo's working tree.
here=$(cd "$(dirname "$0")/.." && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mqttsim.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
"$here/bin/build.sh" "$tmp" "${VERIF_REPO:-/repo}" || exit 2
"$tmp/mqttsim" replay "$@"
exit $?
