#!/bin/bash
# runseed.sh ID[:PROP]...: run the check of the seeded change's property on a scratch copy with the change applied
for a in "$@"; do
  id=${a%%:*}; p=${a#*:}; [ "$p" = "$a" ] && p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/runseed.XXXXXX); cp -a /repo "$w/repo"; git -C "$w/repo" checkout -q -- .
  git -C "$w/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: patch fails"; continue; }
  s=$(date +%s)
  VERIF_REPO="$w/repo" timeout 900 /verif/run.sh check $p quick > "$w/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 VIOLATION "$w/out" || grep -m3 UNDECIDED "$w/out" | cut -c1-300 || tail -1 "$w/out")"
  rm -rf "$w"
done
