#!/bin/bash
# check.sh <property>: rebuilds the simulator against /repo's working tree and explores that property.
# Extra arguments go to the simulator (--runs N, --secs S, --workers N).
cd "$(dirname "$0")/sim" || exit 3
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0 CARGO_TERM_COLOR=never
# a change of /repo must be seen even where file times do not show it
rm -rf "$PWD"/target/debug/.fingerprint/templito-* "$PWD"/target/debug/.fingerprint/inst-*
if ! cargo build --offline --quiet >/tmp/verif_build.$$ 2>&1; then
  cat /tmp/verif_build.$$
  rm -f /tmp/verif_build.$$
  echo "HARNESS-ERROR the simulator does not build against /repo"
  exit 3
fi
rm -f /tmp/verif_build.$$
id=$1; shift
exec target/debug/sim check "$id" --verif "$(dirname "$PWD")" "$@"
