#!/bin/bash
# Builds every harness crate from the committed files, offline.
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
for c in hjs hts hvm; do
  [ -f $c/Cargo.toml ] || continue
  (cd $c && cargo build --offline 2>&1 | tail -3) || exit 1
done
exit 0
