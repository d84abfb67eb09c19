#!/bin/bash
# build.sh AREA: builds harness AREA natively and its whole-program bitcode; prints their paths.
set -e
cd "$(dirname "$0")/$1"
export RUSTUP_TOOLCHAIN=1.86.0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${SYMX_HBUILD:-$(cd ../..; pwd)/build/h-$1}"
export RUSTFLAGS="-C save-temps -Awarnings"
cargo build --release --offline
if ! ls "$CARGO_TARGET_DIR"/release/deps/h_${1//-/_}-*.lto.after-restriction.bc >/dev/null 2>&1; then
    touch src/main.rs
    cargo build --release --offline
fi
