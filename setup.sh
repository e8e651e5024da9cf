#!/bin/bash
# Builds every harness once, so that the checks start warm; each check can also build on its own.
set -u
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
mkdir -p evidence target
rc=0
for d in mc/*/; do
  n=$(basename "$d"); [ "$n" = core ] && continue
  [ -f "$d/Cargo.toml" ] || continue
  (cd "$d" && cargo build --release --offline) >"target/build-$n.log" 2>&1 || { echo "build of $n failed"; tail -20 "target/build-$n.log"; rc=1; }
done
exit $rc
