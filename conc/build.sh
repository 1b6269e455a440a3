#!/bin/bash
# Builds the harness with every memory access of masstree routed to the engine. Prints the binary path.
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=1.92.0 RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
cargo build --offline --bin "${1:-mcconc}" --release --target x86_64-unknown-linux-gnu ${CONC_TARGET:+--target-dir "$CONC_TARGET"} 1>&2 || exit 3
echo "${CONC_TARGET:-$PWD/target}/x86_64-unknown-linux-gnu/release/${1:-mcconc}"
