#!/bin/bash
# detect.sh ID...: apply a planted bug to a copy of /repo and run its property's quick check from a copy of the harness.
# D=scratch directory, PROPS="P02 P03" further properties, SEED=n.
D=${D:-/tmp/det}; mkdir -p "$D/repo" "$D/harness" "$D/hv"
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rsync -a --checksum --no-times --delete --exclude target --exclude .git /repo/ "$D/repo/"
  rsync -a --checksum --no-times --delete --exclude target --exclude Cargo.toml "$here/harness/" "$D/harness/"
  (cd "$here/harness" && find . -name Cargo.toml -not -path './target/*') | while read -r f; do
    sed "s#path = \"/repo\"#path = \"$D/repo\"#" "$here/harness/$f" > "$D/toml"
    cmp -s "$D/toml" "$D/harness/$f" || cp "$D/toml" "$D/harness/$f"
  done
  cp "$here/known_findings.txt" "$D/hv/"
  (cd "$D/repo" && patch -s -p1 < "$d/patch.diff") || { echo "$id APPLY FAIL"; continue; }
  (cd "$D/harness" && CARGO_NET_OFFLINE=true cargo build --offline -q 2>&1 | grep -E "^error" -A5)
  for q in $p $PROPS; do
    out=$("$D/harness/target/debug/harness" check "$q" quick "${SEED:-1}" "$D/hv" 2>&1); rc=$?
    echo "$id $q rc=$rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-40) $(echo "$out" | grep -m1 '^  \[' | cut -c1-150)"
  done
done
