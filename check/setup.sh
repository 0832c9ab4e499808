#!/bin/bash
# Builds the executor and warms the build directories; every check builds what it misses itself.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$(dirname "$0")/../symex" && cargo build --release --offline --target-dir ../build/symex
