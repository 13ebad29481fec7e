#!/bin/bash
# Prebuilds the MIR dumper, the type-checked dependencies and the replay harness (offline).
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence
bash tools/dump.sh "$PWD/.build/setup-dump"
for b in convert evaluate compare; do bash tools/dump.sh "$PWD/.build/setup-dump" elinor-cli --bin elinor-$b; done
rm -rf "$PWD/.build/setup-dump"
bash tools/cli.sh "$PWD/.build/cli" elinor-convert elinor-evaluate elinor-compare
cd replay && CARGO_TARGET_DIR=../.build/replay RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS= cargo build --offline -q --locked
