#!/usr/bin/env bash
# builds the harness once; every check rebuilds what changed in /repo by itself
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/env.sh"
cargo build --offline --manifest-path "$V/harness/Cargo.toml"
# the standard library and the P04 workloads with ThreadSanitizer; tsan.sh copes without
RUSTFLAGS="-Zsanitizer=thread" rustup run nightly cargo build --offline -Zbuild-std --target x86_64-unknown-linux-gnu --manifest-path "$V/tsan/Cargo.toml" || true
