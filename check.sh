#!/bin/bash
# usage: check.sh ID — builds the model checker against /repo and explores one property.
set -u
cd "$(dirname "$0")" || exit 2
id="$1"
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true NO_COLOR=1 TZ=UTC RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/harness/target"
log=$(mktemp)
bin="$CARGO_TARGET_DIR/debug/mc" target=
if [ "$id" = C05 ]; then
    # With the address sanitizer, which makes every invalid access end the process.
    export RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$PWD/harness/target-asan" MC_ASAN=1
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:quarantine_size_mb=64:malloc_context_size=1:allocator_may_return_null=1:symbolize=0
    target="--target x86_64-unknown-linux-gnu" bin="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/mc"
fi
cli=
if [ "$id" = C26 ] || [ "$id" = --build ]; then
    # The command itself, built next to the model checker.
    export MC_SEAM="$PWD/harness/target-cli/debug/seam"
    CARGO_TARGET_DIR="$PWD/harness/target-cli" cargo build --offline --manifest-path /repo/Cargo.toml --bin seam >"$log.cli" 2>&1 & cli=$!
fi
if ! cargo build --offline --manifest-path harness/Cargo.toml $target >"$log" 2>&1; then
    grep -A14 '^error' "$log" | head -60 >&2; rm -f "$log"; echo "build failed" >&2; exit 2
fi
if [ -n "$cli" ] && ! wait "$cli"; then grep -A14 '^error' "$log.cli" | head -60 >&2; rm -f "$log" "$log.cli"; echo "build of the command failed" >&2; exit 2; fi
rm -f "$log" "$log.cli"
[ "$id" = --build ] && exit 0
export MC_KNOWN="$PWD/known_findings.txt"
export MC_WORK="$(mktemp -d /tmp/mc-work.XXXXXX)" MC_REPLAYS="$PWD/replays" MC_EVIDENCE="$PWD/evidence"
trap 'rm -rf -- "$MC_WORK"' EXIT
"$bin" check "$id"
