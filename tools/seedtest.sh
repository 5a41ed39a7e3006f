#!/bin/bash
# authoring: seedtest.sh ID... : confirm that a planted change builds, passes the stable tests, and that its demo separates
for id in "$@"; do
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seedXXXX)
git -C /repo apply --check $S/patch.diff || { echo "$id: does not apply"; continue; }
cp -a $S $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
( cd /repo && bash $W/demo/demo.sh >$W/o0 2>&1 ); r0=$?
git -C /repo apply $S/patch.diff
bash /opt/vp/build.sh >$W/b 2>&1; rb=$?
bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
np=$(python3 -c "import json;d=json.load(open('$W/t.json'));print(d if not isinstance(d,dict) else {k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})")
( cd /repo && bash $W/demo/demo.sh >$W/o1 2>&1 ); r1=$?
if [ -n "$CHECKS" ]; then for p in $CHECKS; do python3 /verif/tools/check.py $p > $W/c 2>&1; echo "   check $p exit $?: $(grep VIOLATION $W/c) $(grep -m3 -E 'failed obl|bounded|failing input' $W/c)"; done; fi
git -C /repo checkout -- .
echo "$id: demo clean=$r0 patched=$r1 build=$rb tests=$np"
[ $r0 = 0 ] || tail -5 $W/o0
[ $rb = 0 ] || tail -5 $W/b
tail -2 $W/o1
rm -rf "$W"
done
bash /opt/vp/build.sh >/dev/null 2>&1
