#!/bin/bash
# development: seedcheck.sh ID [--notest]: does a planted change build, pass the stable tests, and does its demo tell it apart?
# Everything happens in a scratch copy /tmp/seed_ID.
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed_$ID
rm -rf "$W"; mkdir -p "$W/vp"; cp -a /repo "$W/repo"; (cd "$W/repo" && git checkout -q -- .)
for f in build.sh test.sh env.sh results.py; do sed -e "s#/repo#$W/repo#g; s#/opt/vp#$W/vp#g; s#VU=/opt/vunit#VU=$W/vunit#; s#/opt/pycache#$W/pyc#g" /opt/vp/$f > "$W/vp/$f"; done
sed -i "s#NPROC=\$(nproc)#NPROC=${NP:-4}#" "$W/vp/env.sh"
mkdir -p "$W/demo"; cp -r "$S"/. "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
sed -i "s#/repo#$W/repo#g" "$W"/demo/*   # only here: demos run with cwd /repo
cd "$W/repo"; bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1; echo "$ID demo clean rc=$?"
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$W/vp/build.sh" > "$W/build.log" 2>&1; echo "$ID build rc=$?"
bash "$W/demo/demo.sh" > "$W/demo.log" 2>&1; echo "$ID demo patched rc=$?"; tail -2 "$W/demo.log" | cut -c1-200
if [ "$2" != --notest ]; then
  bash "$W/vp/test.sh" "$W/out.json" > "$W/test.log" 2>&1
  python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
m=[t for t in b if t not in o['passed']]
print(sys.argv[1], 'STABLE TESTS', 'PASS' if not m else 'FAIL %d %s'%(len(m),m[:5]))
P
fi
cd /; [ -n "$KEEP" ] || rm -rf "$W"
