#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory
# and runs it in a scratch directory, then check.py (if any) on what it wrote.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
mkdir -p "$S/src" "$S/out"
cp "$D/main.rs" "$S/src/main.rs"
cat >"$S/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_xlsxwriter = { path = "$R", features = ["constant_memory", "serde", "chrono"] }
serde = { version = "1", features = ["derive"] }
[patch.crates-io]
rust_xlsxwriter_derive = { path = "$R/macros" }
TOML
cd "$S" && cargo build --offline -q 2>"$S/log" || { cat "$S/log" >&2; exit 3; }
timeout 120 "$S/target/debug/demo" "$S/out" || exit 1
if [ -f "$D/check.py" ]; then
    python3 "$D/check.py" "$S/out" || exit 1
fi
exit 0
