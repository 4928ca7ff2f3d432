#!/bin/bash
# By hand: tools/plant_test.sh <seeded id> [CHECK...]: tries a planted bug (build, tests, demo before and after, checks), then undoes it.
d=/verif/seeded/$1; shift
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
bash "$d/demo.sh" >/tmp/w/demo0.log 2>&1; echo "demo unchanged: $? (want 0)"
git apply "$d/patch.diff" || exit 2
if [ -n "$BT" ]; then
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/w/test.json 2>&1 | tail -1
fi
bash "$d/demo.sh" >/tmp/w/demo1.log 2>&1; echo "demo patched: $? (want nonzero)"; grep -v '^ *Compiling' /tmp/w/demo1.log | tail -4
cd /verif
for c in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do ./check $c 2>&1 | tail -3 | cut -c1-600; done
