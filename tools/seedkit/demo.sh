#!/bin/bash
# run with cwd = the repository; builds the crate from its sources against small stand-ins of its
# dependencies (no network here) and runs main.rs, which exits 0 when the behaviour is right
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTUP_TOOLCHAIN RUSTFLAGS
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
cp -r "$HERE/stubs" "$W/stubs"
mkdir -p "$W/d/src"
cp "$HERE/main.rs" "$W/d/src/main.rs"
cat > "$W/d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2015"
[workspace]
[features]
default = ["stats", "datasets"]
stats = []
datasets = []
[lib]
name = "rusty_machine"
path = "$REPO/src/lib.rs"
doctest = false
[[bin]]
name = "demo"
path = "src/main.rs"
[dependencies]
num = { path = "../stubs/num" }
rand = "=0.4.6"
rulinalg = { path = "../stubs/rulinalg" }
END
cd "$W/d" || exit 3
cargo +stable build --offline --quiet 2> "$W/log" || { cat "$W/log" | tail -40; exit 3; }
timeout 120 ./target/debug/demo
