#!/bin/bash
# replay.sh <replay file>: runs one recorded violation again, printing its trace. Exit 1 if it fails again.
cd "$(dirname "$0")"
. ./env.sh
case "$(grep -o '"property": *"[A-Z]' "$1" | tail -c 2)" in Q) pkg=ql-harness ;; *) pkg=te-harness ;; esac
build "$pkg" || exit 2
exec "$CARGO_TARGET_DIR/debug/$pkg" replay "$1"
