#!/bin/bash
# Regenerates the lifted crate from /repo and builds the harness against it and against /repo.
# usage: build.sh [sym|real|all]
set -e
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export RUSTFLAGS="-Awarnings"
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${CGAR_REPO:-/repo}"
W="$V/.work"
export CARGO_TARGET_DIR="$W/target"
mkdir -p "$W/lifted/src"
what="${1:-all}"
if [ "$what" = sym ] || [ "$what" = all ]; then
  (cd "$V/lift" && cargo build --release --offline --locked -q)
  "$W/target/release/lift" "$REPO/src" "$W/lifted/src"
  cp "$V/lift/lifted.Cargo.toml" "$W/lifted/Cargo.toml"
  (cd "$V/harness/sym" && cargo rustc --release --offline --locked -q --bin hx-sym -- -Awarnings)
fi
if [ "$what" = real ] || [ "$what" = all ]; then
  (cd "$V/harness/real" && cargo rustc --release --offline --locked -q --bin hx-real -- -Awarnings)
fi
