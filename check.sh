#!/bin/bash
# check.sh <property id> [quick|thorough] [extra harness arguments]
# Builds the harness from /repo's current working tree and runs the property's simulations.
set -u
cd "$(dirname "$0")"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
. ./env.sh
case "$id" in Q*) pkg=ql-harness ;; *) pkg=te-harness ;; esac
build "$pkg" || { echo "check.sh: the harness does not build against /repo" >&2; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$pkg" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" \
  --evidence evidence/$id.json --replays replays --known known-findings.jsonl "$@"
