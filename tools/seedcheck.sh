#!/bin/bash
# seedcheck.sh ID... : confirm planted changes in a scratch copy (/tmp/sb): builds, stable tests pass, demo passes without and fails with the patch.
. /opt/vp/env.sh
SB=${SB:-/tmp/sb}; V=${V:-/verif}
[ -d $SB ] || cp -a /repo $SB
for id in "$@"; do
  d=$V/seeded/$id; cd $SB && git checkout -q -- . && git fetch -q ${SEEDREPO:-/repo} HEAD 2>/dev/null && git checkout -q FETCH_HEAD
  [ -n "$SKIP_BASE" ] || { cargo test --workspace --no-run --locked --offline >/tmp/sb.log 2>&1 || { echo "$id: base build failed"; continue; }
  timeout 300 bash $d/demo.sh >/tmp/sb.demo0 2>&1; r0=$?; }
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if ! cargo test --workspace --no-run --locked --offline >/tmp/sb.log 2>&1; then echo "$id: BUILD FAILED"; tail -30 /tmp/sb.log; git checkout -q -- .; continue; fi
  timeout 300 bash $d/demo.sh >/tmp/sb.demo1 2>&1; r1=$?
  t="skipped"
  if [ -z "$SKIP_TESTS" ]; then
    timeout 780 cargo nextest run --workspace --no-fail-fast --locked --offline --test-threads 8 --tool-config-file vp:/opt/vp/nextest/config.toml > /tmp/sb.tests 2>&1
    timeout 60 cargo test --workspace --doc --no-fail-fast --locked --offline > target/vp-doc.log 2>&1
    python3 /opt/vp/results.py /tmp/sb.json junit:$SB/target/nextest/default/junit.xml cargo:$SB/target/vp-doc.log
    t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open('/tmp/sb.json'))['passed'])
m=sorted(b-r); print('ok' if not m else 'FAILED %d: %s'%(len(m),m[:4]))")
  fi
  echo "$id: demo clean=$r0 patched=$r1 ($(tail -1 /tmp/sb.demo1 | cut -c1-150)) tests=$t"
  git checkout -q -- .
done
