#!/bin/bash
# builds the program beside this file against the tree in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/src" "$here/Cargo.lock" "$work/"
sed "s#/repo#$PWD#g" "$here/Cargo.toml" > "$work/Cargo.toml"
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 RUSTFLAGS=--cap-lints=warn
(cd "$work" && cargo build --offline > build.log 2>&1) || { tail -n 30 "$work/build.log"; exit 3; }
timeout 120 "$work/target/debug/demo"
