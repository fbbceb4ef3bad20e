#!/usr/bin/env bash
# Builds every checker once, offline, from the committed files and /repo's working tree.
set -eu
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$ROOT/target" RUSTFLAGS="-Awarnings"
cd "$ROOT/harness"
# one package at a time, as the checks do: features are then resolved the same way
for p in mc-measures mc-symbolic mc-sched; do cargo build --offline -q -p "$p"; done
