#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the explorer for one property from /repo's current working tree and runs it.
cd "$(dirname "$0")" || exit 2
. ./env.sh
bin=$(bin_of "$1") || exit 2
log=$(mktemp)
case "$bin" in integrate|manager) crate=mm/$bin ;; worker) crate=mm/manager ;; *) crate=mc ;; esac
if ! cargo build --release --offline --manifest-path "$crate/Cargo.toml" --bin "$bin" >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"; echo "check error: build failed"; exit 4
fi
if [ "$1" = P04 ] && ! cargo build --release --offline --manifest-path pakcli/Cargo.toml >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"; echo "check error: build failed"; exit 4
fi
rm -f "$log"
exec ./target/release/"$bin" "$1" "${2:-quick}"
