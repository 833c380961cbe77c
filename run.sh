#!/bin/bash
# Usage: run.sh <property id> | run.sh replay <file> | run.sh build
# Rebuilds the harness against /repo's current working tree, then runs one check.
# VERIF_SEED (default 1) and VERIF_TIER (quick|thorough) select the run.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/target"
export VERIF_ROOT="$here"
id="${1:-}"
[ "$id" = replay ] && id="$(sed -n 's/.*"property": *"\([A-Za-z0-9]*\)".*/\1/p' "$2" | head -1)"
case "$id" in
  build) bins="" ;;
  C18) bin=verif-dec; bins="--bin $bin" ;;
  C13|C14|C17|C20) bin=verif-math; bins="--bin $bin" ;;
  C16|C28) bin=verif-sdk; bins="--bin $bin" ;;
  *) bin=verif; bins="--bin $bin" ;;
esac
log="$CARGO_TARGET_DIR/build.$$.log"
mkdir -p "$CARGO_TARGET_DIR"
if ! (cd "$here/harness" && cargo build --offline --locked --quiet $bins) >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
[ "$id" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
