#!/bin/bash
# try.sh SEED [CHECK...]: applies a planted bug to /repo, runs the checks (default: its property's), undoes it.
S=/verif/seeded/$1; shift
C=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply "$S/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
[ -n "$BASE" ] && { bash /opt/vp/test.sh /tmp/base.json >/tmp/base.log 2>&1; python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/base.json'))['passed']);print('baseline', 'ok' if b<=p else b-p)"; }
for c in $C; do bash /verif/check.sh $c quick > /tmp/try.out 2>&1; r=$?; echo "$(basename $S) $c rc=$r $(grep -m1 VIOLATION /tmp/try.out | cut -c1-300)"; done
