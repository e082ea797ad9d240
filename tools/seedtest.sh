#!/bin/bash
# seedtest.sh ID...: in a scratch copy of /repo, checks a planted bug: applies, builds, passes the stable tests, and its demo tells the difference.
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
W=/tmp/sw
[ -d $W ] || cp -a /repo $W
cd $W && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target -e Cargo.lock
for id in "$@"; do
  S=/verif/seeded/$id
  git checkout -q -f . 
  git apply --check $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  git apply $S/patch.diff
  cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/sw.log 2>&1
  sed -E -e 's/\x1b\[[0-9;]*m//g' -e '/^test tests\/ui\/.* \.\.\. /{/ \.\.\. ok$/!s/ \.\.\. .*$/ ... FAILED/}' /tmp/sw.log > /tmp/sw.cargo.log
  python3 /opt/vp/results.py /tmp/sw.json "cargo:/tmp/sw.cargo.log"
  python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sw.json'))
miss=set(b['stable'])-set(o['passed'])
print(sys.argv[1],'tests:', 'ok' if not miss else f'FAIL {sorted(miss)[:4]}')
P
  grep -qE "^error(\[E[0-9]+\])?: (could not|cannot)|^error\[E" /tmp/sw.log && grep -E "^error\[E" -A6 /tmp/sw.log | head -20
  D=$(mktemp -d); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
  (cd $W; ZOD=$W bash $D/demo.sh > /tmp/sw.demo1 2>&1); a=$?
  git checkout -q -f .
  (cd $W; ZOD=$W bash $D/demo.sh > /tmp/sw.demo0 2>&1); b=$?
  rm -rf $D
  echo "$id demo: with patch $a (want non-zero), without $b (want 0)"
  [ $a -ne 0 ] && [ $b -eq 0 ] || { tail -5 /tmp/sw.demo1; tail -5 /tmp/sw.demo0; }
done
