#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
# Exit 0: the property's behaviour was observed; otherwise it was violated.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME="${HOME:-/root}" PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
rm -rf /tmp/kcdemo-@ID@
mkdir -p /tmp/kcdemo-@ID@/src /tmp/kcdemo-@ID@/capi || exit 9
trap 'rm -rf /tmp/kcdemo-@ID@' EXIT
cp "$here/main.rs" "$here/common.rs" /tmp/kcdemo-@ID@/src/ || exit 9
cp "$repo/Cargo.lock" /tmp/kcdemo-@ID@/ || exit 9
cat > /tmp/kcdemo-@ID@/Cargo.toml <<T
[package]
name = "kcdemo"
version = "0.1.0"
edition = "2018"
[dependencies]
tesseract-keychain = { path = "$repo/keychain", features = ["backup", "custom-networks"] }
bip39 = { path = "$repo/bip39" }
cryptoxide = "0.1"
kcdemo-capi = { path = "capi" }
[profile.release]
opt-level = 1
debug = 0
[workspace]
T
cat > /tmp/kcdemo-@ID@/capi/Cargo.toml <<T
[package]
name = "kcdemo-capi"
version = "0.1.0"
[lib]
name = "rust_keychain"
path = "$repo/keychain-c/src/lib.rs"
crate-type = ["rlib"]
[dependencies]
tesseract-keychain = { path = "$repo/keychain", features = ["backup", "custom-networks"] }
enum-primitive-derive = "0.1"
num-traits = "0.2"
[features]
default = ["cardano", "ethereum", "bitcoin", "backup"]
cardano = []
ethereum = []
bitcoin = []
backup = []
T
cd /tmp/kcdemo-@ID@ || exit 9
cargo build --release --offline --target-dir "${KCDEMO_TARGET:-/tmp/kcdemo-@ID@/target}" > build.log 2>&1 || { tail -20 build.log; exit 9; }
timeout 200 "${KCDEMO_TARGET:-/tmp/kcdemo-@ID@/target}/release/kcdemo"
