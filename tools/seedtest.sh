#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo (build,
# stable tests, demonstration on both trees) and runs the property's quick check
# against the changed copy. NOTEST=1 skips the stable tests.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include
for id in "$@"; do
  s=/verif/seeded/$id
  w=/tmp/seedtest.$id
  rm -rf "/tmp/seedtest.$id"; cp -a /repo "$w"; git -C "$w" checkout -q -- .
  r=""
  (cd "$w" && bash "$s/demo.sh" >/tmp/seedtest.log 2>&1) || r="$r DEMO-FAILS-CLEAN"
  git -C "$w" apply "$s/patch.diff" || r="$r NOAPPLY"
  (cd "$w" && go build ./... ) || r="$r NOBUILD"
  if [ -z "$NOTEST" ]; then
    (cd "$w" && go test -json -vet=off -count=1 -timeout 10m -skip '^TestDownload$' ./... 2>/dev/null > /tmp/seedtest.json)
    python3 - <<'E' || r="$r TESTS-FAIL"
import json,sys
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set()
for l in open('/tmp/seedtest.json'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action']=='pass': ok.add(e['Package']+'/'+e['Test'])
bad=[t for t in stable if t not in ok]
if bad: print('failing stable tests:',len(bad),bad[:4])
sys.exit(1 if bad else 0)
E
  fi
  (cd "$w" && bash "$s/demo.sh" >/tmp/seedtest.log 2>&1) && r="$r DEMO-PASSES-PATCHED"
  grep -q "build failed" /tmp/seedtest.log && r="$r DEMO-BUILD-FAILED"
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  st=$(date +%s)
  o=$(/verif/check.sh "$p" quick -repo "$w" 2>&1); c=$?
  caught=MISSED; echo "$o" | grep -q "^VIOLATION property=$p" && [ $c = 1 ] && caught=caught
  echo "$id $p $caught exit=$c $(( $(date +%s)-st ))s $r | $(echo "$o" | grep -A1 ^VIOLATION | tail -1 | cut -c1-150)"
  python3 - "$id" "$caught" "$(echo "$o" | grep -A1 ^VIOLATION | sed -n 2p | sed 's/: .*//;s/ //g')" <<'E'
import json,os,sys
f='/verif/tools/seed_results.json'
d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=('yes: '+sys.argv[3]) if sys.argv[2]=='caught' else 'no'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
E
  rm -rf "/tmp/seedtest.$id"
done
