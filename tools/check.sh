#!/bin/bash
# bash tools/check.sh <property> [quick|thorough]: builds the harness (and, for the properties of
# the command line, the binary) from /repo's current tree and runs one monitor.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id=$1; tier=${2:-quick}
log=$(mktemp)
js=""
if [ "$id" = C24 ]; then js="--features js"; export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/js" RUSTFLAGS="--cfg hongdown_verif"; fi
case $id in C19|C2[0-5]) pk="-p hdmon -p hongdown --bins" ;; *) pk="" ;; esac
if ! cargo build --release --offline --manifest-path "$VERIF_ROOT/harness/Cargo.toml" $pk $js >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "$id: the harness does not build"; exit 2
fi
if [ -n "$pk" ] && ! gcc -shared -fPIC -O1 -o "$CARGO_TARGET_DIR/shim.so" "$VERIF_ROOT/tools/shim.c" -ldl >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "$id: the instrumentation does not build"; exit 2
fi
if [ "$id $tier" = "C17 thorough" ]; then  # the race detector needs an instrumented standard library
  tsan="$CARGO_TARGET_DIR/tsan"
  if ! RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR="$tsan" cargo build --release --offline \
      --manifest-path "$VERIF_ROOT/harness/Cargo.toml" -p hdmon -p hongdown --bins -Zbuild-std --target x86_64-unknown-linux-gnu >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"; echo "$id: the race detector build fails"; exit 2
  fi
  export HDMON_TSAN="$tsan/x86_64-unknown-linux-gnu/release/hdmon"
fi
rm -f "$log"
[ -n "$HDMON_TSAN" ] ||  # the race detector reserves terabytes of address space
ulimit -v 22000000  # a case that eats memory ends this run, not the sandbox
exec "$CARGO_TARGET_DIR/release/hdmon" check "$id" "$tier"
