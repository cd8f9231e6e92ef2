#!/bin/bash
# builds the program beside this file against the tree in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/demo"
cp -r "$here/src" "$here/Cargo.lock" "$here/Cargo.toml" "$work/demo/"
cp -r "$here/standin" "$work/"
find "$work" \( -name '*.rs' -o -name Cargo.toml \) -exec sed -i "s#/repo#$PWD#g" {} +
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 RUSTFLAGS=--cap-lints=warn
(cd "$work/demo" && cargo build --offline > "$work/build.log" 2>&1) || { tail -n 30 "$work/build.log"; exit 3; }
mkdir "$work/scratch"
cd "$work/scratch" && DEMO_DIR="$here" timeout 120 "$work/target/debug/demo"
