#!/bin/bash
# Compile /repo's current working tree under the MIR-dumping driver.
# usage: dump.sh OUTDIR  (writes OUTDIR/<crate>.json for every workspace crate)
set -e
HERE="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${SA_REPO:-/repo}"
OUT="$1"
TD="${SA_TARGET:-$HERE/build/target}"
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
mkdir -p "$OUT" "$TD"
rm -f "$OUT"/*.json
# the wrapper must run even when cargo believes the crates are fresh
rm -rf "$TD"/debug/build/{rusty-chromaprint,fpcalc,compare} "$TD"/debug/.fingerprint/{rusty-chromaprint,fpcalc,compare}-*
export CARGO_INCREMENTAL=0
export RUSTC_WORKSPACE_WRAPPER="$HERE/build/sa-driver"
export SA_OUT="$OUT"
export CARGO_NET_OFFLINE=true
cargo +nightly check --offline --manifest-path "$REPO/Cargo.toml" --workspace --lib --bins --target-dir "$TD"
