#!/bin/bash
# Builds the simulator against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="-A warnings" RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true
exec cargo build --offline --quiet -p dst "$@"
