#!/bin/bash
# builds the demonstration against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$here/lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "exec"
version = "0.1.0"
edition = "2024"
[dependencies]
rerecast = { path = "$PWD/crates/rerecast" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
glam = { version = "*", features = ["serde"] }
[workspace]
[profile.dev]
debug = false
T
cd "$d" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg rerecast_verif" timeout 250 cargo run -q --offline --target-dir "$d/target"
