#!/bin/bash
# seedtest.sh ID...: confirm planted changes in a scratch copy of /repo: the demo passes without the
# change, the change builds and keeps the stable tests passing, the demo fails with it.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
for id in "$@"; do
  w=$(mktemp -d /tmp/seedw.XXXXXX)
  cp -a /repo "$w/repo"; cd "$w/repo" || exit 1
  git checkout -q -- . 
  s=/verif/seeded/$id; d="$w/demo"; cp -a "$s" "$d"; rm -f "$d"/*.diff "$d"/meta.json
  timeout 300 bash "$d/demo.sh" >"$w/o1" 2>&1; a=$?
  if ! git apply "$s/patch.diff"; then echo "$id: PATCH FAILS"; rm -rf "$w"; continue; fi
  go build ./... ; b=$?
  go test -json -vet=off -count=1 ./... > "$w/t.json" 2>/dev/null
  t=$(python3 - "$w/t.json" <<'PY'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=base if isinstance(base,list) else base.get('stable') or base.get('passed') or list(base.values())[0]
res={}
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Test') and d['Action'] in('pass','fail','skip'): res[d['Test']]=d['Action']
print(sum(v=='pass' for v in res.values()),[k for k,v in res.items() if v=='fail'][:5])
PY
)
  timeout 300 bash "$d/demo.sh" >"$w/o2" 2>&1; c=$?
  echo "$id: demo clean=$a build=$b tests=$t demo patched=$c"
  [ $a != 0 ] && tail -5 "$w/o1"
  [ $c = 0 ] && tail -5 "$w/o2"
  cd /; rm -rf "$w"
done
