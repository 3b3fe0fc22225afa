#!/bin/bash
# Builds the harness in its variants once, so that the first checks do not have to.
cd "$(dirname "$0")/harness" || exit 1
T="$(cd .. && pwd)/target"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T"
unset RUSTFLAGS
cargo build --offline --locked || exit 1
# with serialized scripts (P27, P28)
CARGO_TARGET_DIR="$T/ser" cargo build --offline --locked --features ser || echo "no serialization build"
# the same under ThreadSanitizer (P27)
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$T/tsan" RUSTFLAGS=-Zsanitizer=thread
cargo build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --features ser || echo "no ThreadSanitizer build"
exit 0
