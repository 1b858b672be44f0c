#!/bin/bash
# check.sh ID [--thorough]: builds the checker from /repo's working tree and decides one property.
# check.sh --build: only builds.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$here/harness" || exit 2
log="$(mktemp)"
if ! cargo build --offline --locked -p mccheck >"$log" 2>&1; then
  cat "$log"
  rm -f "$log"
  echo "check: the checker does not build"
  exit 2
fi
rm -f "$log"
[ "$1" = "--build" ] && exit 0
exec ./target/debug/mccheck --root "$here" "$@"
