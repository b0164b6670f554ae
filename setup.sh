#!/bin/bash
# Build the dependencies of the MIR build and the replay harness once; every check rebuilds
# /repo's crate itself and works without this as well.
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import z3' || exit 1
python3-vt check.py P06 --tier quick || exit 1
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cd harness && cargo build --offline --locked --target-dir ../build/harness || exit 1
exit 0
