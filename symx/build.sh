#!/bin/bash
# Builds the symbolic executor against the pinned toolchain's LLVM and the system Z3.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS
LIB="$(rustc --print sysroot)/lib"
export CARGO_TARGET_DIR="${SYMX_TARGET:-$PWD/../build/symx}"
export RUSTFLAGS="-L $LIB -C link-arg=-Wl,-rpath,$LIB -L /usr/lib/x86_64-linux-gnu"
cargo build --release --offline 2>&1
