#!/bin/bash
# Builds the small program beside this script against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cp "$here/Cargo.lock" "$t/Cargo.lock"
cp "$here/main.rs" "$t/src/main.rs"
cd "$t" || exit 9
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export DEMO_REPO=$repo
export CARGO_TARGET_DIR=$t/target
/root/.cargo/bin/cargo build --offline >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 9; }
"$t/target/debug/demo"
