#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy (build, stable tests, demo with/without).
id=$1; S=/verif/seeded/$id; W=/tmp/seed.$id
rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"
cp /repo/include/fnft_config.h "$W/include/" 2>/dev/null
sed "s#/repo#$W#g" /opt/vp/build.sh > "$W/b.sh"
sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/b.sh#g" /opt/vp/test.sh > "$W/t.sh"
(bash "$W/b.sh") >"$W/log" 2>&1 || { echo "base build failed"; exit 1; }
(cd "$W" && timeout 300 bash "$S/demo.sh" >"$W/demo0" 2>&1); echo "demo clean rc=$? (want 0)"; tail -2 "$W/demo0"
(cd "$W" && git init -q . 2>/dev/null; git apply "$S/patch.diff") || { echo "patch does not apply"; exit 1; }
(bash "$W/b.sh") >"$W/log" 2>&1 || { echo "patched build failed"; tail -5 "$W/log"; exit 1; }
(cd "$W" && timeout 300 bash "$S/demo.sh" >"$W/demo1" 2>&1); echo "demo patched rc=$? (want nonzero)"; tail -2 "$W/demo1"
if [ "$2" != notest ]; then
(bash "$W/t.sh" "$W/t.json") >"$W/log" 2>&1; echo -n "tests: "; python3 - "$W/t.json" <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('stable',b.get('passed',[])))
print(len(st),'missing',sorted(st-set(t['passed']))[:6])
P
fi
rm -rf "$W"
