#!/bin/bash
# builds the extractor and the harness into /verif/.build, offline
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd tools/vx && cargo build --offline --locked --target-dir ../../.build/vx)
(cd harness && RUSTFLAGS="--cfg rerecast_verif" cargo build --offline --target-dir ../.build/harness) || true
(cd harness_avian && cargo build --offline --target-dir ../.build/harness_avian) || true
