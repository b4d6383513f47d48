#!/bin/bash
# seedtest.sh <id> [noverify]: confirm a planted bug (builds, passes the stable tests,
# demo fails with it and passes without), then run its property's check on it.
# Works on /repo itself and undoes the change.
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
demo() { D=$(mktemp -d /tmp/demoXXXX); cp -r $S/. $D/; (cd /repo && timeout 300 bash $D/demo.sh >$D/out 2>&1); r=$?; [ "$2" ] && tail -3 $D/out; rm -rf $D; return $r; }
if [ "$2" != noverify ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1
  demo clean; echo "demo on clean tree: $?"
fi
git -C /repo apply $S/patch.diff || { echo "patch does not apply"; exit 2; }
if [ "$2" != noverify ]; then
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "build FAILS"; tail -5 /tmp/seed_build.log; exit 2; }
  demo patched v; echo "demo with the bug: $?"
  bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_test.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def names(x):
    for k in ('stable','passed','pass'):
        if k in x: return set(x[k])
    return set(x)
st=names(b); ps=names(o)
print('stable tests failing:', sorted(st-ps)[:5])
P
fi
cd $V; python3 check.py $P > /tmp/seed_check.log 2>&1; r=$?
echo "check $P: exit $r"; grep -v '^VIOL' /tmp/seed_check.log | head -3
