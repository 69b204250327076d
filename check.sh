#!/bin/bash
# usage: check.sh PROPERTY TIER | check.sh build | check.sh replay FILE
# Rebuilds the harness against /repo's current working tree, then decides one property.
V="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$V/harness/target" RUSTFLAGS="--cfg zksql_verif -Awarnings"
export CARGO_INCREMENTAL=0
cd "$V/harness" || exit 2
if ! cargo build --offline --locked >"$V/harness/build.log" 2>&1; then
  echo "build of the harness against /repo failed" >&2
  tail -40 "$V/harness/build.log" >&2
  exit 2
fi
case "$1" in
  build) exit 0 ;;
  replay) exec "$CARGO_TARGET_DIR/debug/zkcheck" replay "$2" ;;
  *) exec "$CARGO_TARGET_DIR/debug/zkcheck" run --property "$1" --tier "${2:-quick}" --verif "$V" --jobs 8 ;;
esac
