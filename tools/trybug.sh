#!/bin/bash
# tools/trybug.sh BUG [PROP]: in a scratch copy of /repo and /verif, apply
# seeded/BUG, build, run the tests, the demo (both sides) and the property's check.
bug=$1
t=$(mktemp -d /tmp/bug.XXXXXX)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PIP_NO_INDEX=1
PY=/opt/venv/bin/python
mkdir $t/v; cp -a /repo $t/r; cp -a /verif/vf /verif/props /verif/check /verif/known_findings.jsonl /verif/properties.jsonl /verif/MANIFEST.json $t/v/ 2>/dev/null
prop=${2:-$($PY -c "import json;print(json.load(open('/verif/seeded/$bug/meta.json'))['property'])")}
cd $t/r
(bash /verif/seeded/$bug/demo.sh >/dev/null 2>&1); d0=$?
git apply /verif/seeded/$bug/patch.diff || { echo "$bug: patch fails"; rm -rf "$t"; exit 1; }
if grep -q pyx /verif/seeded/$bug/patch.diff; then
  rm -rf build pvtrace/engine/_kernel.c pvtrace/engine/*.so; PYTHONPATH=$t/r $PY -m pvtrace.engine.build >/dev/null 2>&1 || echo "$bug: BUILD FAILS"
fi
if [ -z "$NOTEST" ]; then PYTHONPATH=$t/r $PY -m pytest tests -q -p no:cacheprovider 2>&1 | tail -1 > $t/tests; else echo skipped > $t/tests; fi
(bash /verif/seeded/$bug/demo.sh >$t/demo 2>&1); d1=$?
cd $t/v; s=$(date +%s)
VERIF_REPO=$t/r PYTHONPATH=$t/r VERIF_SEED=1 timeout 900 ./check $prop > $t/out 2>&1; rc=$?
echo "$bug: demo $d0/$d1 tests: $(cat $t/tests) | check $prop rc=$rc $(grep -h VIOLATION $t/out | head -1) ($(( $(date +%s) - s ))s) :: $(grep -hE 'FAIL|INCONC' $t/out | head -2 | cut -c1-200 | tr '\n' ';')"
rm -rf "$t"
