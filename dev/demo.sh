#!/bin/bash
# Builds the small program beside this script against the puck crate in the current directory and runs it in the Lunatic runtime.
# Exit 0 when the property's example behaves as it should.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
. /opt/vp/env.sh
mkdir "$W/src" && cp "$D/main.rs" "$W/src/main.rs" && cp /opt/vp/ws/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
puck = { path = "$R/puck" }
lunatic = "0.9.1"
url = "2.2.2"
[workspace]
T
export CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target}
cd "$W" || exit 3
cargo build --offline --quiet --target wasm32-wasi > "$W/build.log" 2>&1 || { cat "$W/build.log"; exit 3; }
timeout 120 lunatic "$CARGO_TARGET_DIR/wasm32-wasi/debug/demo.wasm" > "$W/out.log" 2>&1
cat "$W/out.log"
grep -q '^DEMO OK$' "$W/out.log"
