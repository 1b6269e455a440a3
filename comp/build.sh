#!/bin/bash
# Builds the component explorer against /repo. Prints the binary path.
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true
cargo build --offline --profile plain ${COMP_TARGET:+--target-dir "$COMP_TARGET"} 1>&2 || exit 3
cargo build --offline --release ${COMP_TARGET:+--target-dir "$COMP_TARGET"} 1>&2 || exit 3
echo "${COMP_TARGET:-$PWD/target}/release/mccomp"
