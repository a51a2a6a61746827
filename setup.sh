#!/bin/bash
# builds the replay crate and runs the verifier once, offline
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cargo build --release --offline --locked -q --manifest-path replay/Cargo.toml --target-dir replay/target
verus --version >/dev/null
python3 -c 'import sys; sys.path.insert(0,"vx"); import vbuild; vbuild.Gen()'
