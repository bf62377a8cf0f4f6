#!/bin/bash
# developer helper: build crate $1 and link roots
set -e
cd /verif/harness/$1
export RUSTUP_TOOLCHAIN=1.80.0 RUSTFLAGS="-C linker-plugin-lto -C no-vectorize-loops -C no-vectorize-slp"
cargo build --offline --release --lib --target x86_64-unknown-linux-gnu --target-dir /verif/build/$1 2>&1 | grep -E "^(error|warning: unused)|Finished|-->" | head -30
n=$(echo $1 | tr - _)
time /verif/engine/build/vsym link /verif/build/$1.bc /verif/build/$1/x86_64-unknown-linux-gnu/release/libvh_$n.a 'prop_*' 'ovr*' 'model_*'
ls -la /verif/build/$1.bc
