#!/bin/bash
# seedcheck.sh ID [CHECK..]  validates /verif/seeded/ID in a scratch copy under /tmp/sd and runs the
# named checks (default: the property of its meta.json) against the changed copy
set -u
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p /tmp/sd
if [ ! -d /tmp/sd/repo ]; then cp -a /repo /tmp/sd/repo; fi
cd /tmp/sd/repo || exit 2
git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq
mkdir -p /tmp/sd/verif
rsync -a --delete --exclude .git --exclude seeded --exclude evidence --exclude replays --exclude harness/target /verif/ /tmp/sd/verif/ 2>/dev/null || { rm -rf /tmp/sd/verif/harness/src; cp -a /verif/run.sh /verif/known_findings.jsonl /verif/properties.jsonl /tmp/sd/verif/; mkdir -p /tmp/sd/verif/harness; cp -a /verif/harness/src /verif/harness/Cargo.* /tmp/sd/verif/harness/; }
[ -d /tmp/sd/verif/harness/target ] || cp -a /verif/harness/target /tmp/sd/verif/harness/target
if [ -z "${SKIP:-}" ]; then
  (cd /tmp/sd/repo && timeout 300 bash "$d/demo.sh" >/tmp/sd/demo0.log 2>&1); echo "demo unchanged: $?"
fi
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 1; }
if [ -z "${SKIP:-}" ]; then
  export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/tmp/sd/repo/target
  cargo test --workspace --features serde,log --no-fail-fast --offline -- --test-threads 8 >/tmp/sd/test.log 2>&1
  python3 /opt/vp/results.py /tmp/sd/o.json cargo:/tmp/sd/test.log
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sd/o.json'))
def ok(d):
    for k in ('passed','stable','pass','tests'):
        if isinstance(d,dict) and k in d: return d[k]
    return d
B=list(ok(b));O=ok(o);O=[k for k,v in O.items() if v in ('pass','passed',True)] if isinstance(O,dict) else O
print('tests', len(B),len(O),'missing',[x for x in B if x not in O])
P
  (cd /tmp/sd/repo && timeout 300 bash "$d/demo.sh" >/tmp/sd/demo1.log 2>&1); echo "demo changed: $? ($(tail -1 /tmp/sd/demo1.log | cut -c1-200))"
fi
unset CARGO_TARGET_DIR RUSTFLAGS
for c in ${@:-$prop}; do
  (cd /tmp/sd/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $c >/tmp/sd/check.log 2>&1; echo "$c exit $? $(grep -m1 -E 'VIOLATION|could not' /tmp/sd/check.log) $(grep -m1 'law ' /tmp/sd/check.log | cut -c1-250)")
done
git checkout -q -f -- .
