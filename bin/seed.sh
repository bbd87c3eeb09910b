#!/bin/bash
# seed.sh ID [PROP...]: development aid.  Confirms a planted change (applies,
# builds, stable tests pass, demo passes without it and fails with it) and runs checks on it.
d=/verif/seeded/$1; id=$1; shift
cd /repo; [ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/seed.out 2>&1; r0=$?
git apply $d/patch.diff || exit 2
t=$(bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1)
bash $d/demo.sh >/tmp/seed2.out 2>&1; r1=$?
echo "$id: demo unchanged=$r0 patched=$r1 tests: $t"
[ $r0 = 0 ] || tail -3 /tmp/seed.out
cd /verif
for p in ${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do VERIF_SEED=1 python3 bin/check.py $p | cut -c1-${CH:-250}; done
git -C /repo checkout -q -- .
