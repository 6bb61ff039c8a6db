#!/bin/bash
# Build the replay harness against the working tree of $REPO. usage: harness.sh OUTDIR
set -e
here="$(cd "$(dirname "$0")" && pwd)"; REPO="${REPO:-/repo}"
B="${VERIF_BUILD:-$here/../.build}"; mkdir -p "$B"; B="$(cd "$B" && pwd)"
H="${1:-$B/harness}"; mkdir -p "$H/tokio"
tokio="$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/tokio-1.39.1 | head -1)"
sub() { sed -e "s#@REPO@#$REPO#g" -e "s#@TOKIO@#$tokio#g" "$1" > "$2.tmp"; cmp -s "$2.tmp" "$2" && rm "$2.tmp" || mv "$2.tmp" "$2"; }
sub "$here/../harness/Cargo.toml" "$H/Cargo.toml"
sub "$here/../harness/tokio/Cargo.toml" "$H/tokio/Cargo.toml"
ln -sfn "$here/../harness/src" "$H/src"
ln -sfn "$here/../harness/tokio/src" "$H/tokio/src"
[ -f "$H/Cargo.lock" ] || cp "$here/../harness/Cargo.lock" "$H/Cargo.lock" 2>/dev/null || cp "$REPO/Cargo.lock" "$H/Cargo.lock"
cd "$H"; unset LD_LIBRARY_PATH RUSTC_WORKSPACE_WRAPPER
CARGO_TARGET_DIR="$B/harness-target" CARGO_NET_OFFLINE=true cargo build --offline 1>&2
