#!/bin/bash
# Builds the simulator, the program under test and the shim from the current trees.
# Quiet unless something fails; any failure is exit 2 (no answer), never a verdict.
cd "$(dirname "$0")" || exit 2
V=$PWD
mkdir -p .build
log=.build/build.log
: > $log
quiet() { "$@" >> $log 2>&1 || { echo "jsim: build failed: $*"; grep -E '^error' -A12 $log | head -60; tail -5 $log; exit 2; } >&2; }
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
(
  flock 9
  quiet env CARGO_TARGET_DIR=$V/.build/sim RUSTFLAGS="--cfg jsparse_sim" cargo build --offline --manifest-path sim/Cargo.toml
  quiet env CARGO_TARGET_DIR=$V/.build/cli cargo build --offline --manifest-path cli/Cargo.toml
  if [ ! -e .build/shim.so ] || [ cli/shim/shim.c -nt .build/shim.so ]; then
    quiet gcc -O1 -g -w -fno-delete-null-pointer-checks -shared -fPIC -o .build/shim.so.new cli/shim/shim.c -ldl
    quiet mv .build/shim.so.new .build/shim.so
  fi
) 9> .build/lock || exit 2
