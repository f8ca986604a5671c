#!/bin/bash
# check.sh PROPERTY quick|thorough: build the harness against /repo's working tree, run one check.
# check.sh build: build everything that the checks need.
set -u
cd "$(dirname "$0")/harness" || exit 3
build() { # target-dir, features
  out=$(cargo build --offline --quiet --target-dir "$1" --features "$2" 2>&1)
}
prop=${1:-}
if [ "$prop" != C28 ] && ! build target ""; then
  echo "$out" | tail -40
  echo "the harness does not build against /repo"
  exit 2
fi
[ "$prop" != C28 ] && [ "$prop" != build ] && exec ./target/debug/odv "$@"
# C28: the harness with PDUs of its own
if ! build target/own own; then
  log=$out
  if [ "$prop" = C28 ] && grep -q -- '--> src/own.rs' <<<"$log" && build target ""; then
    # everything else builds: what an application writes is no longer accepted
    mkdir -p ../evidence/replay
    printf '%s\n' "$log" > ../evidence/replay/C28-0.txt
    grep -A9 -m1 '^error' <<<"$log"
    echo "VIOLATION property=C28 replay=$(cd .. && pwd)/evidence/replay/C28-0.txt"
    exit 1
  fi
  echo "$log" | tail -40
  echo "the harness does not build against /repo"
  exit 2
fi
[ "$prop" = build ] && exit 0
exec ./target/own/debug/odv "$@"
