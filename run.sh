#!/bin/bash
# ./run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
# Builds the checker against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET MIRIFLAGS RUSTUP_TOOLCHAIN
mkdir -p evidence replays
log="$(mktemp)"
build() {
	if ! "$@" >"$log" 2>&1; then
		tail -40 "$log" >&2
		rm -f "$log"
		exit 2
	fi
}
build env -C harness cargo build --release --offline
if [ "$1" = M01 ]; then
	export CARGO_TARGET_DIR="$PWD/target-miri"
	RUSTFLAGS=-Zsanitizer=address build env -C ub cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu
	build env -C ub cargo +nightly miri run --release --offline -q -- list quick
	unset CARGO_TARGET_DIR
fi
rm -f "$log"
exec target/release/mc "$@"
