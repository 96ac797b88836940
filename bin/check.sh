#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator from /repo's working tree and searches for a violation.
# Exit 0: none found. Exit 1: VIOLATION line. Exit 2: the check itself failed.
here=$(cd "$(dirname "$0")/.." && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mqttsim.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! "$here/bin/build.sh" "$tmp" "$repo" >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "the simulated build of $repo failed" >&2
  exit 2
fi
case $tier in
  thorough) runs=100000000 max=${VERIF_MAX_S:-600} min=90 ;;
  *) tier=quick runs=${VERIF_RUNS:-350000} max=${VERIF_MAX_S:-120} min=45 ;;
esac
mkdir -p "$here/evidence/replays"
"$tmp/mqttsim" check -prop "$prop" -tier "$tier" -seed "$seed" -runs "$runs" -max-s "$max" -min-s "$min" -workers 8 \
  -known "$here/known-findings.txt" -evidence "$here/evidence/$prop.json" -replays "$here/evidence/replays"
exit $?
