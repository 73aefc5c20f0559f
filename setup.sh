#!/bin/bash
# Checks that the harness compiles against /repo; every check builds what it needs again.
set -e
cd "$(dirname "$0")"
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg ripp_verif -Awarnings"
cd mc && cargo build --release --offline --locked
