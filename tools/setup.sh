#!/bin/bash
# Checks build what they need themselves; this only shows that the toolchain is usable offline.
set -e
cd "$(dirname "$0")/../harness"
build() { CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/../target/default" cargo build --release --offline --locked -q --bin toon-verif --no-default-features --features "set-default$1"; }
build ,inner || build ""
