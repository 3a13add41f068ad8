#!/bin/bash
# Builds the recorder from /repo and compiles the TLC module overrides once, to see that they build.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cargo build --offline --manifest-path harness/Cargo.toml --target-dir harness/target
t=$(mktemp -d)
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$t" spec/java/*.java
rm -rf "$t"
mkdir -p evidence
