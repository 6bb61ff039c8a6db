#!/bin/bash
# Build the MIR dumper and dump the MIR of /repo's current working tree.
# usage: mir.sh OUTDIR
set -e
here="$(cd "$(dirname "$0")" && pwd)"
B="${VERIF_BUILD:-$here/../.build}"; mkdir -p "$B"; B="$(cd "$B" && pwd)"
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
if [ ! -x "$B/mirdump" ] || [ "$here/mirdump/main.rs" -nt "$B/mirdump" ]; then
  rustc +nightly --edition 2021 -O -C prefer-dynamic -o "$B/mirdump.tmp.$$" "$here/mirdump/main.rs"
  mv "$B/mirdump.tmp.$$" "$B/mirdump"
fi
if [ ! -f "$B/shims.json" ] || [ "$here/../vc/shims.rs" -nt "$B/shims.json" ] || [ "$B/mirdump" -nt "$B/shims.json" ]; then
  T="$(mktemp -d "$B/shims.XXXXXX")"
  MIRDUMP_DIR="$T" "$B/mirdump" rustc --edition 2021 --crate-type lib --crate-name shims --emit=metadata --out-dir "$T" "$here/../vc/shims.rs"
  mv "$T/shims.json" "$B/shims.json"
  rm -rf "$T"
fi
mkdir -p "$1"; OUT="$(cd "$1" && pwd)"
export CARGO_TARGET_DIR="$B/mir-target" MIRDUMP_DIR="$OUT" RUSTC_WORKSPACE_WRAPPER="$B/mirdump" CARGO_NET_OFFLINE=true
# force the workspace crates (not their dependencies) to be compiled again
rm -rf "$B"/mir-target/debug/.fingerprint/protosocket* "$B"/mir-target/debug/build/protosocket* "$B"/mir-target/debug/incremental
rm -f "$OUT"/*.json
cd "${REPO:-/repo}" && cargo +nightly check --offline --workspace --lib 1>&2
cp "$B/shims.json" "$OUT/shims.json"
