#!/bin/bash
# check.sh ID [tier]: rebuild the harness from /repo's working tree and decide one property.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD
tier=${2:-${VERIF_TIER:-quick}}
if [ "$1" = C21 ]; then
    bash ./build.sh mem >&2 || exit 2
    export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:quarantine_size_mb=16:handle_abort=0
    exec ./target/asan/x86_64-unknown-linux-gnu/release/mc run "$1" "$tier"
fi
bash ./build.sh >&2 || exit 2
exec ./target/cargo/release/mc run "$1" "$tier"
