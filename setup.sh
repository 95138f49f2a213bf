#!/bin/sh
# Builds everything once; the checks rebuild what changed in /repo.
here=$(cd "$(dirname "$0")" && pwd)
PATH=$PATH:/root/.cargo/bin
export PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
mkdir -p "$here/evidence"
cargo build --offline --quiet --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/harness/target" --profile mon 2>/dev/null
