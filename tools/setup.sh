#!/bin/bash
# builds the symbolic executor (checks rebuild it themselves when it is missing)
cd "$(dirname "$0")/../engine" && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --release --offline --target-dir ../target/engine
