#!/bin/bash
# cli.sh TARGETDIR BIN...: build the command line tools of /repo's current tree.
set -e
T=$1; shift
B=(); for b in "$@"; do B+=(--bin "$b"); done
cd "${REPO:-/repo}"
CARGO_TARGET_DIR=$T RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTFLAGS= cargo build --offline -q -p elinor-cli "${B[@]}"
