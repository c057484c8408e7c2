#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo and runs its property's check against that copy.
id=$1; d=/verif/seeded/$id
. /verif/tools/env.sh
w=$(mktemp -d /tmp/seedw.XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo" || exit 2
mkdir "$w/demo"; cp "$d"/* "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1 || { echo "$id: DEMO FAILS ON CLEAN"; tail -20 "$w/clean.log"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$id: DOES NOT BUILD"; exit 1; }
go test -json ./... > "$w/t.json" 2>/dev/null
python3 - "$w/t.json" <<'P' || { echo "$id: BREAKS TESTS"; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set();fail=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Test') and e['Action'] in('pass','fail'):
        (ok if e['Action']=='pass' else fail).add(e['Package']+'::'+e['Test'])
        (ok if e['Action']=='pass' else fail).add(e['Test'])
bad=[t for t in b if t in fail or t.split('::')[-1] in fail]
if bad or fail: print("failing:",sorted(fail)[:10]); sys.exit(1)
P
bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1 && { echo "$id: DEMO PASSES WITH THE BUG"; exit 1; }
echo "$id: planted bug counts"
[ "$2" = nocheck ] && exit 0
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp -a /verif "$w/verif"
VERIF_REPO="$w/repo" "$w/verif/check.sh" "$prop" >"$w/check.log" 2>&1; rc=$?
grep -a VIOLATION "$w/check.log" | head -3 | cut -c1-200
[ $rc = 1 ] && echo "$id: CAUGHT by $prop" || { echo "$id: MISSED by $prop (rc $rc)"; tail -5 "$w/check.log"; }
