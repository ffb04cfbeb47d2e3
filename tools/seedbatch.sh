#!/bin/bash
# usage: tools/seedbatch.sh ID...  — runs the test suite with all the named patches applied together in a scratch copy
W=/tmp/sb_$$; mkdir -p $W; cp -a /repo/. $W/
for i in "$@"; do git -C $W apply /verif/seeded/$i/patch.diff && echo "applied $i" || echo "CONFLICT $i (not included)"; done
sed "s#cd /repo#cd $W#" /opt/vp/test.sh > $W.test.sh
PYTHONPATH=$W/src bash $W.test.sh $W.json > $W.log 2>&1
python3 - $W.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(sys.argv[1]))
p=set(r.get('passed') or r.get('stable') or [])
if not p: print({k:type(v).__name__ for k,v in r.items()})
m=b-p; print("tests lost:",len(m),sorted(m)[:12])
P
rm -rf $W $W.json $W.test.sh; mv $W.log /tmp/seedbatch.log
