#!/bin/bash
# Builds the exploration engine against /repo's current working tree and runs one property's check.
# usage: check.sh PROPERTY | check.sh --replay PROPERTY SPACE CASE
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" HOME=/root PATH=/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
crate=mc
case "$*" in *C23*|*C24*) crate=mce ;; esac
log=$(mktemp)
if ! cargo build --offline --quiet --manifest-path $crate/Cargo.toml > "$log" 2>&1; then
  cat "$log"; rm -f "$log"; echo "engine error: build failed"; exit 2
fi
rm -f "$log"
exec $crate/target/debug/$crate "$@"
