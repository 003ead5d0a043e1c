#!/bin/bash
# tryseed.sh ID [nodemo]: confirm a planted bug: demo passes without, fails with; builds, stable tests pass; check catches?
id=$1; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 2; }
if [ "${2:-}" != nodemo ]; then bash "$d/demo.sh" >/tmp/seed-$id-clean.log 2>&1; echo "$id demo clean: $?"; fi
git apply "$d/patch.diff" || exit 2
if [ "${2:-}" != nodemo ]; then
bash /opt/vp/build.sh >/tmp/seed-$id-build.log 2>&1 || echo "$id DOES NOT BUILD"
bash /opt/vp/test.sh /tmp/seed-$id.json >/dev/null 2>&1
python3 - $id <<'P'
import json,sys
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/seed-%s.json'%sys.argv[1]))
def passed(x):
    x=x.get('tests',x)
    if isinstance(x,dict):
        for k in ('passed','pass'):
            if k in x and isinstance(x[k],list): return set(x[k])
        return {k for k,v in x.items() if v in('passed','pass',True)}
    return set(x)
print(sys.argv[1],'tests lost:',sorted(passed(a)-passed(b)),len(passed(b)))
P
bash "$d/demo.sh" >/tmp/seed-$id-bug.log 2>&1; echo "$id demo with bug: $?"; tail -n 3 /tmp/seed-$id-bug.log
fi
(cd /verif; VERIF_SEED=1 timeout 900 ./run.sh $p quick >/tmp/seed-$id-check.log 2>&1; echo "$id check $p: $?"; grep -m2 -E "VIOLATION|panicked" /tmp/seed-$id-check.log)
git -C /repo checkout -- .
