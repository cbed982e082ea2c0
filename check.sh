#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the harness from /repo's working tree, then search
cd "$(dirname "$0")" || exit 2
. sim/env.sh
log=$(mktemp)
if ! (cd sim && cargo build --release --locked --offline) >"$log" 2>&1; then
  cat "$log"
  rm -f "$log"
  echo "check.sh: the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
exec target/release/bctsim check "$1" "${2:-quick}"
