#!/bin/bash
# Builds the sequential explorer against /repo. Prints the binary path.
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true
cargo build --offline --profile plain ${SEQ_TARGET:+--target-dir "$SEQ_TARGET"} 1>&2 || exit 3
if [ "$1" = traced ]; then # for M08
  T=${SEQ_TARGET:-$PWD/target}
  cargo build --offline --profile plain --features traced --target-dir "$T/traced" 1>&2 || exit 3
  cargo build --offline --release --features traced --target-dir "$T/traced" 1>&2 || exit 3
fi
cargo build --offline --release ${SEQ_TARGET:+--target-dir "$SEQ_TARGET"} 1>&2 || exit 3
echo "${SEQ_TARGET:-$PWD/target}/release/mcseq"
