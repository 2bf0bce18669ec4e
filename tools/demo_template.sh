#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
# Exit 0: the library behaves; anything else: it does not.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/tb" "$D/src"
cp -r "$REPO/src" "$D/tb/"
cp "$REPO"/*.md "$D/tb/" 2>/dev/null
sed -e '/^loom *=/d' -e '/^\[workspace\]/,/^\]/d' -e '/^tracing/d' -e '/^\[dev-dep/,/^\[target/d' "$REPO/Cargo.toml" | sed -e '/^\[patch/d' > "$D/tb/Cargo.toml"
cp "$HERE/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug-assertions = false
overflow-checks = false
[dependencies]
thingbuf = { path = "./tb", features = ["static"] }
T
cd "$D" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
unset CARGO_TARGET_DIR
@RUN@
