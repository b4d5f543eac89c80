#!/bin/bash
# usage: trybug.sh ID [check ids...]: builds, tests and demonstrates a planted bug, then runs checks against it
id=$1; shift
cd /repo || exit 2
d=/tmp/o/demo_$id; mkdir -p $d; cp /verif/seeded/$id/demo.* $d/
[ -z "$(git status --short)" ] || { echo dirty; exit 2; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/o/b.log 2>&1 || echo "BUILD (clean) FAILED"
bash $d/demo.sh >/tmp/o/demo_clean.log 2>&1; echo "$id demo clean: $? $(tail -1 /tmp/o/demo_clean.log)"
fi
git apply /verif/seeded/$id/patch.diff || exit 2
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/o/b.log 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/o/tb.json >/dev/null 2>&1; python3 -c "
import json;t=json.load(open('/tmp/o/tb.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('tests failing:',[x for x in b['stable'] if x not in t['passed']])"
bash $d/demo.sh >/tmp/o/demo_bug.log 2>&1; echo "$id demo bug: $? $(tail -1 /tmp/o/demo_bug.log)"
fi
for c in "$@"; do
  s=$(date +%s); /verif/check.sh $c >/tmp/o/chk.log 2>&1; echo "$id $c exit $? in $(($(date +%s)-s)) s: $(grep -m1 VIOLATION /tmp/o/chk.log | cut -c1-200)"
done
git checkout -q -- .
rm -rf /tmp/o/demo_$id
