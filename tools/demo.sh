#!/bin/bash
# Builds main.rs beside this file against the hydra in the current directory and runs it.
set -u
R="$PWD"; D="$(cd "$(dirname "$0")" && pwd)"; W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
F='"macros"'; [ -f "$D/features" ] && F="$(cat "$D/features")"
mkdir "$W/src"; cp "$D/main.rs" "$W/src/main.rs"; [ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[dependencies]
hydra = { path = "$R/hydra", default-features = false, features = [$F] }
hydra-websockets = { path = "$R/hydra-websockets", default-features = false }
tokio = { version = "1", features = ["rt", "rt-multi-thread", "net", "sync", "time", "macros", "io-util"] }
serde = { version = "1", features = ["derive"] }
T
cd "$W" && CARGO_TARGET_DIR="$W/target" cargo build --offline -q 2>"$W/log" || { cat "$W/log"; echo "demo does not build"; exit 3; }
timeout 120 "$W/target/debug/demo"; c=$?
echo "exit $c"; exit $c
