#!/bin/bash
# check.sh <property> [--thorough]   builds the harness from /repo's current tree and runs one check
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
shift
mkdir -p "$here/evidence" "$here/target"
crate=$(cat "$here/crates.map" | awk -v id="$id" '$1 == id { print $2 }')
[ -n "$crate" ] || { echo "no such check: $id"; exit 2; }
if ! bash "$here/build.sh" "$crate" > "$here/target/build-$crate.log" 2>&1; then
  tail -n 60 "$here/target/build-$crate.log"
  echo "the harness could not be built against /repo"
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/$crate" "$id" "$@"
