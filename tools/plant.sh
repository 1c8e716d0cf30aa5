#!/bin/bash
# usage: plant.sh ID [PROP...] — confirm /verif/seeded/ID in a scratch copy of /repo and show which checks catch it
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/plant_$ID
/bin/rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"
sed "s|^REPO=.*|REPO=$W/repo|" /opt/vp/common.sh > "$W/common.sh"
sed "s|/opt/vp/common.sh|$W/common.sh|" /opt/vp/test.sh > "$W/test.sh"
bld() { bash -c ". $W/common.sh; build" > "$W/b.log" 2>&1 || { echo "BUILD FAILED"; tail -20 "$W/b.log"; }; }
demo() { mkdir -p "$W/demo"; cp -a "$S"/. "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json; (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/demo.log" 2>&1; echo $?); }
[ -n "$SKIPBASE" ] || { bld; r=$(demo); echo "demo on unchanged tree: $r"; [ "$r" = 0 ] || tail -5 "$W/demo.log"; }
git -C "$W/repo" apply "$S/patch.diff" || exit 1
bld; r=$(demo); echo "demo with patch: $r"; tail -3 "$W/demo.log"
for P in "$@"; do VERIF_REPO=$W/repo python3 /verif/check $P > "$W/$P.log" 2>&1; echo "check $P: exit $?"; grep -m3 '^  \[' "$W/$P.log" | cut -c1-300; done
if [ -z "$NOTEST" ]; then bash "$W/test.sh" "$W/res.json" > "$W/t.log" 2>&1; python3 - "$W/res.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));p=set(json.load(open(sys.argv[1]))['passed'])
m=[t for t in b['stable'] if t not in p];print('stable tests missing',len(m),m[:5])
P
fi
/bin/rm -rf "$W"
