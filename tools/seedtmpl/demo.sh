#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/demo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
stacks-rs = { path = "$repo/stacks", features = ["crypto", "clarity", "transaction", "wallet-sdk", "rpc", "derive"] }
secp256k1 = { version = "0.28.2", features = ["recovery"] }
[profile.dev]
debug = 0
TOML
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 4
"$t/target/debug/demo"
