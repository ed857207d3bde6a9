#!/bin/bash
# seedtest.sh ID...: does each planted bug build, pass the stable tests, show in its demo?  With CHECK=1 also runs its check.
for id in "$@"; do
 d=/verif/seeded/$id
 git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
 b=0; timeout 300 bash /opt/vp/build.sh >/tmp/b.log 2>&1 || b=1
 timeout 300 bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
 f=$(python3 -c "
import json
t=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b
print(len(t['passed']), len(t.get('failed',[])))")
 (cd /repo; timeout 300 sh $d/demo.sh >/tmp/demo.log 2>&1); dr=$?
 c=-
 if [ -n "$CHECK" ]; then p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); (cd /verif; timeout 900 python3 checks/check.py $p quick >/tmp/check.log 2>&1); c=$?; fi
 git -C /repo checkout -q -- .
 (cd /repo; timeout 300 sh $d/demo.sh >/tmp/demo0.log 2>&1); d0=$?
 echo "$id build=$b tests(pass fail)=$f demo_patched=$dr demo_clean=$d0 check=$c"
done
