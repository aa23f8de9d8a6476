#!/bin/bash
# Builds the simulator against /repo's working tree.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
export PATH=/opt/typst/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTC_BOOTSTRAP=1
export CARGO_TARGET_DIR=/verif/target/simrs
mkdir -p "$CARGO_TARGET_DIR"
gcc -O2 -fno-pie -fno-builtin-syscall -c rt/simrt.c -o "$CARGO_TARGET_DIR/simrt.new.o"
cmp -s "$CARGO_TARGET_DIR/simrt.new.o" "$CARGO_TARGET_DIR/simrt.o" || { cp "$CARGO_TARGET_DIR/simrt.new.o" "$CARGO_TARGET_DIR/simrt.o"; touch src/main.rs; }
export RUSTFLAGS="--cfg mitex_sim -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Crelocation-model=static -Clink-arg=-no-pie -Clink-arg=$CARGO_TARGET_DIR/simrt.o"
exec cargo build --release --offline --target x86_64-unknown-linux-gnu "$@"
