#!/bin/bash
# seedrun.sh ID [PROPERTY...]: applies the planted change to /repo, runs the stable tests and the checks of its property, undoes it.
V=/verif; S=$V/seeded/$1; id=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo "$id: BUILD FAILS"; bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/st.json'))
def names(x): 
    for k in ('stable','passed','pass','tests'):
        if k in x: return set(x[k] if not isinstance(x[k],dict) else [n for n,v in x[k].items() if v in('pass','passed',True)])
    return set()
m=names(b)-names(t)
print("tests:", "ok" if not m else "MISSING %s"%sorted(m)[:5], len(names(b)))
P
fi
for p in $P; do timeout 900 bash $V/run.sh $p > /tmp/sr.log 2>&1; r=$?; echo "$id: $p exit $r $(grep -a -m1 VIOLATION /tmp/sr.log)"; done
