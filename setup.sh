#!/bin/bash
# Builds the framework once; every check builds what it needs again.
cd "$(dirname "$0")" || exit 1
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
cargo build -q --offline --manifest-path harness/Cargo.toml --profile mon --target-dir target
