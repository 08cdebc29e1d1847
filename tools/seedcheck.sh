#!/bin/bash
# seedcheck.sh ID [nodemo]: validates /verif/seeded/ID in a scratch copy and lists the checks that catch it
id=$1; S=/verif/seeded/$id; W=/tmp/w/seed-$id
rm -rf "$W"; mkdir -p /tmp/w; cp -a /repo "$W" || exit 1
. /opt/vp/env.sh
git -C "$W" apply "$S/patch.diff" || { echo "$id PATCH FAILS"; exit 1; }
(cd "$W" && go build ./...) || { echo "$id BUILD FAILS"; exit 1; }
if [ "$2" != nodemo ]; then
(cd "$W" && go test -json -vet=off -count=1 -timeout 4m ./... > /tmp/w/$id.log; GOFLAGS="-trimpath -mod=mod" go test -json -vet=off -count=1 ./examples | sed 's|"Package":"github.com/gkampitakis/go-snaps/examples"|"Package":"github.com/gkampitakis/go-snaps/examples[trimpath]"|' >> /tmp/w/$id.log)
python3 - $id <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
st=base if isinstance(base,list) else base.get('stable') or base.get('tests') or base.get('passed') or list(base.values())[0]
fails=set()
for l in open('/tmp/w/%s.log'%sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='fail': fails.add(e['Package']+' '+e.get('Test',''))
print(sys.argv[1],'stable tests:', 'FAIL '+str(sorted(fails)[:4]) if fails else 'pass')
P
mkdir -p /tmp/w/demo-$id; rm -rf /tmp/w/demo-$id; cp -r "$S" /tmp/w/demo-$id; rm -f /tmp/w/demo-$id/*.diff /tmp/w/demo-$id/meta.json
(cd /repo && timeout 300 bash /tmp/w/demo-$id/demo.sh > /tmp/w/$id.clean 2>&1; echo "$id demo clean: $?")
(cd "$W" && timeout 300 bash /tmp/w/demo-$id/demo.sh > /tmp/w/$id.bug 2>&1; echo "$id demo bug: $?")
git -C /repo status --short
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
out=$(/tmp/az -repo "$W" 2>&1 | grep -v '^ok' | grep '\[')
echo "$id ($P) caught: $(echo "$out" | grep -c "[(,]$P[,)]")  by: $(echo "$out" | grep -o '\[[A-Z]*\]' | sort | uniq -c | tr '\n' ' ')"
echo "$out" | grep "[(,]$P[,)]" | head -2 | cut -c1-200
rm -rf "$W" /tmp/w/demo-$id
