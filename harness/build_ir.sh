#!/bin/bash
# build_ir.sh FEATURE OUT.ll
set -e
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/verif/harness/target}
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"
cd /verif/harness
cargo rustc --offline --profile ir --lib --crate-type cdylib --features $1 -- -C save-temps --emit=link
BC=$(ls -t $CARGO_TARGET_DIR/ir/build/vh/*/out/*cgu.0.rcgu.bc | head -1)
L=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
$L/llvm-dis "$BC" -o "$2"
