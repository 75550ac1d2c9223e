#!/bin/bash
# Builds the small program beside this script against the puck_liveview sources in the current directory (its two crates.io-only
# build dependencies are replaced by the small stand-ins in stubs/) and runs it in the Lunatic runtime.
# Exit 0 when the property's example behaves as it should.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
. /opt/vp/env.sh
mkdir -p "$W/demo/src" "$W/liveview" && cp "$D"/*.rs "$W/demo/src/" && cp /opt/vp/ws/Cargo.lock "$W/Cargo.lock"
cp -r "$D/stubs" "$W/stubs"
cat > "$W/Cargo.toml" <<T
[workspace]
resolver = "2"
members = ["demo", "liveview"]
T
cat > "$W/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
puck = { path = "$R/puck" }
puck_liveview = { path = "../liveview", features = ["apply"] }
malvolio = { path = "../stubs/malvolio", features = ["pub_fields"] }
lunatic = "0.9.1"
url = "2.2.2"
serde = { version = "1.0.138", features = ["derive"] }
serde_json = "1.0.82"
T
cat > "$W/liveview/Cargo.toml" <<T
[package]
name = "puck_liveview"
version = "0.1.0"
edition = "2018"
[lib]
path = "$R/puck_liveview/src/lib.rs"
doctest = false
[dependencies]
derive_builder = { path = "../stubs/derive_builder" }
malvolio = { path = "../stubs/malvolio", features = ["pub_fields"] }
puck = { path = "$R/puck" }
serde = { version = "1.0.138", features = ["derive"] }
serde_json = "1.0.82"
lunatic = "0.9.1"
url = "2.2.2"
[features]
apply = []
_fuzz = ["apply"]
T
export CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target}
cd "$W" || exit 3
cargo build --offline --quiet --target wasm32-wasi -p demo > "$W/build.log" 2>&1 || { cat "$W/build.log"; exit 3; }
timeout 120 lunatic "$CARGO_TARGET_DIR/wasm32-wasi/debug/demo.wasm" > "$W/out.log" 2>&1
cat "$W/out.log"
grep -q '^DEMO OK$' "$W/out.log" || exit 1
[ -e "$D/scenario.js" ] || exit 0
# what the messages sent make of the page
node "$D/scenario.js" "$R" "$W/out.log" > "$W/page.log" 2>&1
cat "$W/page.log"
grep -q '^DEMO OK$' "$W/page.log"
