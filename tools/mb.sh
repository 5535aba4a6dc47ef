#!/bin/bash
# build the monitor of this checkout
cd "$(dirname "$0")/../harness" && CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable cargo build --offline --profile mon --target-dir ../target 2>&1 | grep -E "^error" -A12
true
