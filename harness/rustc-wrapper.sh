#!/bin/bash
# Instruments the atomic operations of the code under test (and of the generic code the harness
# instantiates): every atomic access calls back into the scheduler.
rustc="$1"; shift
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      hydra|hydra_websockets|mccheck|conform_mc|tokio_real)
        exec "$rustc" "$@" -C passes=tsan -C llvm-args=-tsan-instrument-func-entry-exit=0 ;;
    esac
    break
  fi
  prev="$a"
done
exec "$rustc" "$@"
