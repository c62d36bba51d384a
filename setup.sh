#!/bin/bash
# Builds the checker once from the committed files.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p evidence replays
(cd harness && cargo build --release --offline) || exit 2
CARGO_TARGET_DIR="$PWD/target-miri" RUSTFLAGS=-Zsanitizer=address env -C ub cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu || exit 2
CARGO_TARGET_DIR="$PWD/target-miri" env -C ub cargo +nightly miri run --release --offline -q -- list quick >/dev/null || exit 2
