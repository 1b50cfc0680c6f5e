#!/bin/bash
# Builds the monitors once (each check rebuilds what it needs from /repo's working tree anyway).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir target/rel --release
cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir target/dbg
cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir target/rel --release --no-default-features --features parts --bin parts
cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir target/dbg --no-default-features --features parts --bin parts
