#!/bin/bash
# Builds every explorer once, so that later checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --release --offline --manifest-path pakcli/Cargo.toml || exit 1
cargo build --release --offline --manifest-path mc/Cargo.toml --bins || exit 1
cargo build --release --offline --manifest-path mm/integrate/Cargo.toml || exit 1
exec cargo build --release --offline --manifest-path mm/manager/Cargo.toml
