#!/bin/bash
# cargo's RUSTC_WRAPPER: adds basic-block instrumentation to the code under test and to the
# concurrency crates it is built from, so the simulator gets a scheduling point per basic block.
rustc=$1; shift
prev=; name=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  prev=$a
done
case "$name" in
  execgraph|simdriver|async_channel|async_priority_channel|event_listener|dashmap)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
