#!/bin/bash
# tools/plant.sh ID...: is the planted bug valid (applies, builds, passes the stable tests, its demo fails with it and
# passes without it), and does the check of its property catch it?   NOCHECK=1 / NOTEST=1 skip parts.
cd /verif
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
    s=$(mktemp -d); cp "$d"/* "$s"; find "$s" \( -name '*.diff' -o -name '*.patch' -o -name meta.json \) -delete
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    r="$id $prop"
    if bash /opt/vp/build.sh > /tmp/plant.build 2>&1; then r="$r build=ok"; else r="$r build=FAIL"; fi
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/test.sh /tmp/plant.test > /tmp/plant.testlog 2>&1
        r="$r tests=$(python3 -c "
import json
d=json.load(open('/tmp/plant.test'));p=set(d['passed']);b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or []
m=[t for t in st if t not in p];print('ok' if not m and st else 'FAIL:%s'%m[:3])")"
    fi
    (cd /repo && timeout 300 bash "$s/demo.sh") > /tmp/plant.demo1 2>&1; r="$r demo_with=$?"
    if [ -z "$NOCHECK" ]; then
        t0=$(date +%s)
        bin/check "$prop" > /tmp/plant.check.$id 2>&1; rc=$?
        r="$r check=$rc($(( $(date +%s) - t0 ))s)"
        grep -q "^VIOLATION property=$prop " /tmp/plant.check.$id || r="$r MISSED"
    fi
    git -C /repo checkout -q -- .
    bash /opt/vp/build.sh > /tmp/plant.build 2>&1
    (cd /repo && timeout 300 bash "$s/demo.sh") > /tmp/plant.demo0 2>&1; r="$r demo_without=$?"
    find "$s" -delete
    echo "$r"
done
