#!/bin/bash
# Builds main.rs against the crates of the repository in the current directory; its exit code is the verdict.
repo=$PWD; here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.91.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$t/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTFLAGS=-Awarnings
python3 "$here/ws.py" "$repo" "$t/ws" || exit 3
mkdir -p "$t/demo/src"; cp "$here/main.rs" "$t/demo/src/main.rs"; cp "$repo/Cargo.lock" "$t/demo/"
cat > "$t/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
$(sed "s#@WS@#$t/ws#g" "$here/deps.toml")
T
cd "$t/demo" && cargo build --offline --quiet || exit 3
timeout 120 "$t/target/debug/demo"
