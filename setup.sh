#!/bin/bash
# Prebuilds the framework (each check rebuilds what depends on /repo anyway).
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target --lib 2>&1 | tail -5
a="${PIPESTATUS[0]}"
cargo build --offline --locked --manifest-path harness/inside/Cargo.toml --target-dir target 2>&1 | tail -5
b="${PIPESTATUS[0]}"
cargo build --offline --locked --manifest-path harness/face/Cargo.toml --target-dir target 2>&1 | tail -5
c="${PIPESTATUS[0]}"
exit $((a | b | c))
