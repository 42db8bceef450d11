#!/bin/bash
# Development aid: seedcheck.sh ID...  confirms planted bugs in a scratch copy of /repo (never in /repo):
# the patch applies, demo passes without it and fails with it, and the existing tests pass with it.
. /opt/vp/env.sh
W=/tmp/wt
mkdir -p /tmp/seedlog
[ -d $W ] || cp -a /repo $W
cd $W || exit 2
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
  if [ -z "${SKIP_CLEAN:-}" ]; then
    if timeout 300 bash $d/demo.sh >/tmp/seedlog/$id.clean 2>&1; then c=ok; else c="FAILS($?)"; fi
  else c=skipped; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if timeout 300 bash $d/demo.sh >/tmp/seedlog/$id.patched 2>&1; then p="PASSES"; else p="fails($?)"; fi
  if [ -z "${SKIP_TESTS:-}" ]; then
    cargo test --workspace --no-fail-fast --locked --offline --features "$FEATURES" -- --test-threads 8 >/tmp/seedlog/$id.test 2>&1
    python3 /opt/vp/results.py /tmp/seedlog/$id.json cargo:/tmp/seedlog/$id.test >/dev/null 2>&1
    t=$(python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try:
    r=json.load(open('/tmp/seedlog/%s.json'%sys.argv[1]))
    p=set(r.get('passed',r.get('pass',[])))
    m=[x for x in b if x not in p]
    print('tests %d/%d %s'%(len(b)-len(m),len(b),m[:5]))
except Exception as e: print('tests ?',e)
P
)
  else t="tests skipped"; fi
  echo "$id: demo clean=$c patched=$p $t"
  git checkout -q -- .
done
