#!/bin/bash
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cd "$(dirname "$0")" && cargo build --release --offline --target-dir "${ZSYM_TARGET:-$(dirname "$PWD")/target/engine}" 2>&1 | grep -E "^error|Finished" -A6
