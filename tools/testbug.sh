#!/bin/bash
# tools/testbug.sh BUG...: apply each in a scratch copy of /repo and run the repository's tests
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
for bug in "$@"; do
  t=$(mktemp -d /tmp/tb.XXXXXX); cp -a /repo $t/r; cd $t/r
  git apply /verif/seeded/$bug/patch.diff || echo "patch fails"
  if grep -q pyx /verif/seeded/$bug/patch.diff; then
    rm -rf build pvtrace/engine/_kernel.c pvtrace/engine/*.so; PYTHONPATH=$t/r /opt/venv/bin/python -m pvtrace.engine.build >/dev/null 2>&1 || echo "BUILD FAILS"
  fi
  echo "$bug: $(PYTHONPATH=$t/r /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider 2>&1 | tail -1)"
  cd /; rm -rf "$t"
done
