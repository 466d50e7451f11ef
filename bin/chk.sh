#!/bin/bash
# developer helper: type-check the harness crate
cd /verif/harness && CARGO_TARGET_DIR=/verif/.build/devtarget RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo check --offline 2>&1 | grep -E "^(error|warning)" -A${1:-6} | head -${2:-100}
