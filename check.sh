#!/bin/bash
# check.sh <property> [quick|thorough]   build from /repo's working tree, then run one check
cd "$(dirname "$0")/sim" || exit 2
. ./env.sh
tier="${2:-${VERIF_TIER:-quick}}"
if [ "$1" != --build ]; then id="$1"; fi
log=$(mktemp)
# the code under test is always compiled again: no stale artefact can stand in for it
cargo clean --offline -q -p pgdatetime -p adapter >/dev/null 2>&1
if ! cargo build --offline -q >"$log" 2>&1; then
  echo "the simulator does not build against /repo:" >&2
  grep -E -A8 "^error" "$log" | head -60 >&2
  rm -f "$log"
  exit 2
fi
rm -f "$log"
[ "$1" = --build ] && exit 0
exec target/debug/pgdst check "$id" --tier "$tier" --root "$(cd .. && pwd)"
