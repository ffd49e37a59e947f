#!/bin/bash
# Builds main.rs (beside this script) against the library in the current
# directory and runs it; everything it writes stays in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
lib=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$lib/Cargo.lock" ] && cp "$lib/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
cgar = { path = "$lib" }
rug = "*"
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
