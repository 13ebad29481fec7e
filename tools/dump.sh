#!/bin/bash
# dump.sh OUTDIR [PKG] [--bin NAME]: dump the MIR of the crates of /repo's current tree (crate elinor by default) as JSON.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1; PKG=${2:-elinor}; shift; shift || true
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly RUSTFLAGS= CARGO_INCREMENTAL=0
SYS=$(rustc --print sysroot)
MD=$V/.build/mirdump/debug/mirdump
if [ ! -x "$MD" ] || [ "$V/mirdump/src/main.rs" -nt "$MD" ]; then
  (cd "$V/mirdump" && CARGO_TARGET_DIR=$V/.build/mirdump cargo build --offline -q)
fi
T=$V/.build/dumpdeps
rm -rf "$T"/debug/.fingerprint/elinor* "$T"/debug/build/elinor*
SEL=("--lib"); FEAT=("--features" "serde")
if [ "$PKG" != elinor ]; then SEL=("$@"); FEAT=(); fi
mkdir -p "$OUT"; rm -f "$OUT"/*.json
cd "${REPO:-/repo}"
LOCK0=$(sha256sum Cargo.lock 2>/dev/null || true)
LD_LIBRARY_PATH=$SYS/lib RUSTC_WORKSPACE_WRAPPER=$MD MIRDUMP_DIR=$OUT CARGO_TARGET_DIR=$T \
  cargo check --offline -q -p "$PKG" "${SEL[@]}" "${FEAT[@]}"
[ -s "$OUT"/elinor.json ]
