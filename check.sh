#!/bin/bash
# check.sh <ID> -- rebuilds the simulator against /repo's working tree and runs one property's check.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
# Cargo goes by modification times; make sure that a changed tree is compiled again whatever its times are.
h=$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; cd "$OLDPWD" && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/built-from 2>/dev/null)" != "$h" ]; then
  cargo clean --release --offline -p topogeo -p sim >/dev/null 2>&1
  rm -f target/built-from
fi
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then cat "$log"; rm -f "$log"; echo "BUILD FAILED"; exit 2; fi
rm -f "$log"
echo "$h" > target/built-from
VERIF_ROOT="$(cd .. && pwd)" exec target/release/sim check "$1"
