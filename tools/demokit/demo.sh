#!/bin/bash
# Exit 0: the property holds in this scenario. Builds in a scratch folder of its own.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp "$here"/Cargo.toml "$here"/Cargo.lock "$here"/*.rs "$w"/ || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=${DEMO_TARGET:-$w/target}
cd "$w" && cargo build --offline -q || exit 2
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
