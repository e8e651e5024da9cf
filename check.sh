#!/bin/bash
# check.sh <harness> <property id> [quick|thorough]
# Builds the harness (and the parts of /repo it drives) from the current working trees, runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
[ $# -ge 3 ] && export VERIF_TIER="$3"
mkdir -p evidence target
# The library harness runs the TypeScript sources under node; nothing to build.
if [ -f "mc/$1/run.mjs" ]; then run=(node "mc/$1/run.mjs" "$2"); else
log="target/build-$1.log"
if ! (cd "mc/$1" && cargo build --release --offline) >"$log" 2>&1; then
  grep -E '^(error|warning: unused)' -A12 "$log" | head -60
  echo "harness $1 does not build against /repo (see $log)"
  exit 2
fi
ulimit -v 25000000
run=("target/release/mc-$1" "$2")
fi
# On a quick run the code under test must come to an end: ten times what any check needs.
[ "${VERIF_TIER:-quick}" = quick ] && run=(timeout -k 10 600 "${run[@]}")
"${run[@]}"; rc=$?
# The process was ended from inside (abort, stack, memory), hangs, or waits for what never comes:
# no check does so by itself, the code under test does.
if [ $rc -ge 124 ] || [ $rc -eq 13 ]; then
  mkdir -p evidence/replays; f="$PWD/evidence/replays/$2-process-ended.json"
  echo "{\"property\": \"$2\", \"key\": \"process-ended\", \"exit\": $rc, \"run\": \"bash check.sh $1 $2\"}" >"$f"
  echo "VIOLATION property=$2 replay=$f"; exit 1
fi
exit $rc
