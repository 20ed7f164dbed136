#!/bin/bash
# seedtest.sh ID...: validate planted bugs in /repo (build, stable tests, demo both ways) and run the property's check. Restores /repo.
cd /repo || exit 1
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -n "$NODEMO" ] || { bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; bash "$d/demo.sh" >/tmp/seed-demo0.log 2>&1; base=$?; }
    git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; b=$?
    bash "$d/demo.sh" >/tmp/seed-demo1.log 2>&1; demo=$?
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/test.sh /tmp/seed-out.json >/tmp/seed-test.log 2>&1
        t=$(python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed-out.json'))
p=set(r.get('passed',[])); f=sorted(b-p)
print('tests-fail:%s'%f[:3] if f else 'tests-ok')
PY
)
    fi
    (cd /verif && python3 bin/check.py "$prop" >/tmp/seed-check.log 2>&1); c=$?
    git checkout -q -- .
    echo "$id [$prop]: build=$b demo-base=$base demo-bug=$demo ${t} check=$c $(grep -o 'VIOLATION.*' /tmp/seed-check.log | head -1 | sed 's/.*replay=[^ ]*//')"
    [ "$c" = 1 ] || tail -3 /tmp/seed-check.log
done
