#!/bin/bash
# seedtest.sh [ID...]: applies each planted bug to a copy of /repo and runs its property's quick check.
cd "$(dirname "$0")/.." || exit 2
ids="$*"; [ -z "$ids" ] && ids="$(ls seeded)"
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/seedtest.$id; rm -rf -- "$w"; cp -a /repo "$w"
  git -C "$w" apply "$PWD/seeded/$id/patch.diff" || echo "$id: does not apply"
  s=$(date +%s)
  out=$(VERIF_REPO="$w" VERIF_NOEVIDENCE=1 ./check.sh "$p" quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep '^VIOLATION' | head -2 | tr '\n' ' ')"
  rm -rf -- "$w"
  how=missed; [ $rc = 1 ] && how=proof
  echo "$out" | grep -q '^failing input' && { how=search; echo "$out" | grep -q '^failed obligation' && how="proof, search"; }
  python3 - "$id" "$how" <<'E'
import json, sys
f = 'tools/seedresults.json'
try: d = json.load(open(f))
except OSError: d = {}
d[sys.argv[1]] = sys.argv[2]
json.dump(dict(sorted(d.items())), open(f, 'w'), indent=1)
E
done
