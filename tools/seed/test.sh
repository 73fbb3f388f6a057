#!/bin/bash
# test.sh ID [prop...]: verifies a planted change in a scratch copy (applies, builds, tests pass, demo) and runs checks against it.
# SR: folder with repo/ (a clone of /repo), build.sh and test.sh (those of /opt/vp with the paths replaced)
SR=${SR:-/tmp/sr}; ID=$1; shift; V=$(cd "$(dirname "$0")/../.." && pwd); S=$V/seeded/$ID; P=${@:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd $SR/repo || exit 1
git checkout -q -- .; git fetch -q /repo HEAD && git checkout -q FETCH_HEAD
bash $SR/build.sh >/dev/null 2>&1; bash $S/demo.sh >/tmp/demo.out 2>&1; echo "$ID demo clean rc=$?"
git apply $S/patch.diff || exit 1
bash $SR/build.sh >/tmp/b.out 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.out; }
bash $SR/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print('tests missing:',[x for x in b['stable'] if x not in o['passed']])
X
bash $S/demo.sh >/tmp/demo2.out 2>&1; echo "$ID demo patched rc=$?"; head -4 /tmp/demo2.out
for p in $P; do (cd ${VDIR:-$V} && VERIF_REPO=$SR/repo timeout 900 python3 tools/check.py $p 2>&1 | tail -2 | cut -c1-400; ); done
git checkout -q -- . ; bash $SR/build.sh >/dev/null 2>&1
