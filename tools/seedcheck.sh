#!/bin/bash
# seedcheck.sh ID [CHECK...]: confirms a planted bug (builds, passes the stable
# tests, its demo tells the trees apart) and shows what the checks say about it.
id=$1; shift
D=/verif/seeded/$id
cd /repo
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo unchanged: $?"; 
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.out; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/seed-test.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed-test.json'))
m=b-set(r['passed']); print('stable tests failing:', sorted(m))
P
fi
timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo.out
cd /verif
for c in ${@:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}; do
  timeout 900 python3 check.py $c 2>&1 | grep -v "^KNOWN" | cut -c1-220 | tail -4; 
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
