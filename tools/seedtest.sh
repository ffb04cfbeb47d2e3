#!/bin/bash
# usage: tools/seedtest.sh ID [notests]   — validates a planted bug in a scratch copy of /repo
ID=$1; S=/verif/seeded/$ID; W=/tmp/st_$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo/. "$W/"
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo && PYTHONPATH=/repo/src bash $S/demo.sh >$W.clean 2>&1; echo "$ID demo clean rc=$? (want 0)"
git -C $W apply $S/patch.diff || { echo "$ID PATCH FAILS"; rm -rf "$W"; exit 1; }
cd $W && PYTHONPATH=$W/src bash $S/demo.sh >$W.bug 2>&1; echo "$ID demo patched rc=$? (want !=0)"; tail -2 $W.bug
if [ "$2" != notests ]; then
  sed "s#cd /repo#cd $W#" /opt/vp/test.sh > $W.test.sh
  PYTHONPATH=$W/src bash $W.test.sh $W.json > $W.log 2>&1
  python3 - $W.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return {k for k,v in d.get('tests',d).items() if v in('passed','pass',True)}
m=passed(b)-passed(r); print("tests lost:",len(m),sorted(m)[:4])
P
fi
cd /verif && DV_SRC=$W/src timeout 900 /opt/venv/bin/python -m dv.run $PROP > $W.check 2>&1; echo "$ID check $PROP rc=$? (want 1)"; grep -m3 VIOLATION $W.check
rm -rf "$W" $W.json $W.test.sh
