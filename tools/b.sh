#!/usr/bin/env bash
# build one harness package quietly: b.sh <package>
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUSTFLAGS=-Awarnings
cd /verif/harness && cargo build --offline -q -p "$1" 2>&1 | grep -E "^error" -A14 | head -${2:-80}
