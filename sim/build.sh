#!/bin/bash
# builds the simulator around the code that is in /repo right now
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true
exec cargo build --release --offline --target-dir "$PWD/../target" "$@"
