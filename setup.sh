#!/bin/bash
# Builds the MIR extractor.
set -e
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
mkdir -p "$V/build"
cd "$V/driver" && cargo build --release --offline --target-dir "$V/build/driver"
