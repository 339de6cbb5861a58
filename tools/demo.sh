#!/bin/bash
# Builds and runs the program beside this script against the crate in the
# current directory; everything it writes goes to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
foca = { path = "$repo", features = ["std", "bincode-codec", "postcard-codec"] }
rand = { version = "0.9", default-features = false, features = ["small_rng"] }
bytes = "1"
bincode = { version = "2", default-features = false, features = ["std", "serde"] }
postcard = { version = "1", default-features = false }
serde = { version = "1", features = ["derive"] }
X
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q
rc=$?
cd /
find "$d" -depth -delete
exit $rc
