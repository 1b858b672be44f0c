#!/bin/bash
# Demonstrates that the replacement libraries behave like the real ones: runs small programs many times
# with the real libraries, and compares what was seen with everything the engine explores (DESIGN.md).
# Not one of the registered checks: what the real run sees is sampled. Exits 1 where they disagree.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
seen="$(mktemp)"
trap 'rm -f "$seen"' EXIT
cd "$here/harness/conform" || exit 2
RUSTC_WRAPPER="" cargo build --offline -q --target-dir "$here/harness/target/conform" || exit 2
"$here/harness/target/conform/debug/conform" "$seen" "${1:-200}" || exit 2
cd "$here/harness" || exit 2
cargo build --offline -q -p conform-mc || exit 2
./target/debug/conform-mc "$seen"
