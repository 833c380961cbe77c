#!/bin/bash
# Run with cwd = the repository. Builds main.rs against it in a scratch folder and runs it:
# exit 0 when the property holds, non-zero when it is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp "$here"/main.rs "$here"/chain.rs "$here"/kit.rs "$here"/sdk.rs "$here"/Cargo.toml "$here"/Cargo.lock "$tmp"/
mkdir -p "$tmp/stub/src" && cp "$here/stub_lib.rs" "$tmp/stub/src/lib.rs" && cp "$here/stub_Cargo.toml" "$tmp/stub/Cargo.toml"
sed -i "s|@REPO@|$repo|g" "$tmp/Cargo.toml"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.76-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" && cargo build --offline --quiet && timeout 120 "$tmp/target/debug/demo"
