#!/bin/bash
# builds main.rs (beside this file) against the library in the current directory, and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export RUSTUP_TOOLCHAIN=1.95.0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
asn1-rs = { path = "$R", features = ["bigint", "datetime"] }
EOF
cd "$T" && timeout 250 cargo run -q --offline 2>"$T/log"
rc=$?
[ $rc -ne 0 ] && tail -5 "$T/log"
exit $rc
