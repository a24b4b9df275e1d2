#!/bin/bash
# replay.sh <replay file>: rebuilds and re-executes exactly the recorded run, printing every event.
f=$(readlink -f "$1")
cd "$(dirname "$0")/sim" || exit 3
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
rm -rf "$PWD"/target/debug/.fingerprint/templito-* "$PWD"/target/debug/.fingerprint/inst-*
cargo build --offline --quiet || exit 3
exec target/debug/sim replay "$f"
