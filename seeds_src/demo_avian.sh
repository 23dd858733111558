#!/bin/bash
# builds the demonstration against the collider conversion in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp -r "$here/stubs" "$d/"
sed -i "s#/repo/#$PWD/#" "$d/stubs/bevy_rerecast_core/Cargo.toml"
cp "$here"/*.rs "$d/src/"
sed -i "s#@REPO@#$PWD#" "$d/src/main.rs"
cp "$here/lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "exec_avian"
version = "0.1.0"
edition = "2024"
[dependencies]
avian3d = { path = "stubs/avian3d" }
bevy = { path = "stubs/bevy" }
bevy_rerecast_core = { path = "stubs/bevy_rerecast_core" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[workspace]
[profile.dev]
debug = false
T
cd "$d" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true timeout 280 cargo run -q --offline --target-dir "$d/target"
