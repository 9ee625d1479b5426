#!/bin/bash
# Builds the harness from the committed files and /repo's tree (each check does so again in its own copy).
cd "$(dirname "$0")/.." && export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints=warn -Awarnings" PATH=/root/.cargo/bin:$PATH RUSTC_WRAPPER=
CARGO_TARGET_DIR=$PWD/target exec cargo build --offline --locked --manifest-path harness/Cargo.toml
