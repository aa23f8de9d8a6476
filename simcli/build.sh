#!/bin/bash
# Builds the command line tool from /repo's working tree, the shim and the stub.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
export PATH=/opt/typst/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR=/verif/target/simcli
mkdir -p "$CARGO_TARGET_DIR"
gcc -O2 -fno-delete-null-pointer-checks -shared -fPIC shim.c -o "$CARGO_TARGET_DIR/shim.so.new" -ldl
mv "$CARGO_TARGET_DIR/shim.so.new" "$CARGO_TARGET_DIR/shim.so"
exec cargo build --release --offline "$@"
