#!/usr/bin/env bash
# check.sh <property id> [--replay <file>]: build the checker against /repo's working tree and run it.
# VERIF_TIER selects quick (default) or thorough.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$ROOT" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$ROOT/target"
export RUST_BACKTRACE=0
export RUSTFLAGS="-Awarnings"
id="${1:?usage: check.sh <id> [--replay file]}"
if [ "${2:-}" = "--replay" ]; then
  MC_REPLAY_KEY="$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["key"])' "$3")" || exit 2
  export MC_REPLAY_KEY
fi
case "$id" in
  C17) pkg=mc-sched ;;
  C11|C12|C13|C14|C15|C16|C18|C19|C21|C22) pkg=mc-symbolic ;;
  *) pkg=mc-measures ;;
esac
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
if ! (cd "$ROOT/harness" && cargo build --offline -q -p "$pkg") >"$log" 2>&1; then
  grep -E '^error' -A 12 "$log" | head -60
  echo "error: the checker does not build against /repo" >&2
  exit 2
fi
"$ROOT/target/debug/$pkg" "$id"
