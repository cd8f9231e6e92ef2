#!/bin/bash
# build.sh <crate>   builds one harness crate against /repo's working tree
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
crate=$1
mkdir -p "$CARGO_TARGET_DIR"
exec 9> "$CARGO_TARGET_DIR/.verif-lock"
flock 9
# cargo compares modification times; copies of a tree do not always keep them in order,
# so a change of content forces a rebuild of everything that comes from /repo or /verif
sum=$( (cd /repo && find . -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0; ) | LC_ALL=C sort -z | (cd /repo && xargs -0 sha256sum) | sha256sum | cut -c1-40)
own=$( (cd "$here" && find . \( -path ./target -o -path ./.git -o -path ./evidence -o -path ./seeded \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0; ) | LC_ALL=C sort -z | (cd "$here" && xargs -0 sha256sum) | sha256sum | cut -c1-40)
stamp="$CARGO_TARGET_DIR/.stamp-$crate"
if [ "$(cat "$stamp" 2> /dev/null)" != "$sum$own" ]; then
  for p in redscript mc opt comp peg hamt sequence scc; do
    find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name "$p*" -exec rm -rf {} + 2> /dev/null || true
  done
  rm -f "$stamp"
fi
cd "$here/$crate"
cargo build --release --offline
echo "$sum$own" > "$stamp"
