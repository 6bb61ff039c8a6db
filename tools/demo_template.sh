#!/bin/bash
# exit 0 when the property holds on the tree in the current directory, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)" || exit 9; trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/demo.rs" "$t/src/main.rs" && cp "$repo/Cargo.lock" "$t/Cargo.lock" || exit 9
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
protosocket = { path = "$repo/protosocket-connection" }
protosocket-prost = { path = "$repo/protosocket-prost" }
protosocket-messagepack = { path = "$repo/protosocket-messagepack" }
protosocket-rpc = { path = "$repo/protosocket-rpc" }
protosocket-server = { path = "$repo/protosocket-server" }
prost = "*"
bytes = "*"
serde = { version = "*", features = ["derive"] }
futures = "*"
tokio = { version = "*", features = ["full"] }
log = "*"
END
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true timeout 280 cargo run --quiet --offline --manifest-path "$t/Cargo.toml"
