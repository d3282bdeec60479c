#!/bin/bash
# Build the explorer against /repo's working tree. cargo goes by mtimes, so what it knows about
# the crate under test is forgotten first; its dependencies are kept.
set -eu
cd "$(dirname "$(readlink -f "$0")")"
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE || true
export CARGO_TARGET_DIR=$PWD/target/cargo
out=$CARGO_TARGET_DIR/release
set --  "${1:-}"
flags=
if [ "$1" = mem ]; then
    # C21: AddressSanitizer, of the same toolchain
    export RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zsanitizer=address
    export CARGO_TARGET_DIR=$PWD/target/asan
    out=$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release
    flags="--features mem --target x86_64-unknown-linux-gnu"
fi
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.mc-lock"
flock 9
rm -rf "$out"/.fingerprint/serde_yaml-* "$out"/.fingerprint/mc-*
log=$CARGO_TARGET_DIR/build.log
if ! cargo build --release --offline --locked $flags --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    grep -A12 '^error' "$log" | head -100 >&2
    exit 1
fi
