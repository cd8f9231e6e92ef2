#!/bin/bash
# builds every harness crate once, so that the checks start faster
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/target"
for c in $(awk '{print $2}' "$here/crates.map" | sort -u); do
  bash "$here/build.sh" "$c" > "$here/target/build-$c.log" 2>&1 || { tail -n 40 "$here/target/build-$c.log"; exit 1; }
done
exit 0
