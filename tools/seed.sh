#!/bin/bash
# seed.sh ID [check]: confirm a planted bug: applies, builds, passes the tests, demo fails with it and
# passes without; with "check" also runs the property's check against it
R=${FV_REPO:-/repo}; V=${FV_V:-/verif}; BUILD=${FV_BUILD:-/opt/vp/build.sh}; TEST=${FV_TEST:-/opt/vp/test.sh}
id=$1; s=$V/seeded/$id
fail() { echo "SEED $id: $*"; git -C $R checkout -q -- .; exit 1; }
[ -z "$(git -C $R status --porcelain)" ] || { echo "repo not clean"; exit 1; }
bash $BUILD >/tmp/seed.b 2>&1 || fail "base build"
(cd $R && timeout 300 bash $s/demo.sh >/tmp/seed.d0 2>&1) || fail "demo fails on the unchanged tree: $(tail -3 /tmp/seed.d0)"
git -C $R apply $s/patch.diff || fail apply
bash $BUILD >/tmp/seed.b 2>&1 || fail "build: $(tail -5 /tmp/seed.b)"
bash $TEST /tmp/seed.t >/tmp/seed.tl 2>&1
python3 - <<'P' || fail tests
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.t'))
st=b.get('stable') or b.get('passed') or b
st=st if isinstance(st,list) else list(st)
sys.exit(0 if all(x in t['passed'] for x in st) else 1)
P
(cd $R && timeout 300 bash $s/demo.sh >/tmp/seed.d1 2>&1) && fail "demo passes with the change"
echo "SEED $id ok (demo: $(tail -1 /tmp/seed.d1))"
if [ "$2" = check ]; then
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (time python3 $V/fv.py check $p) > /tmp/seed.c.$id 2>&1
  echo "  check: $(grep -c '^VIOLATION' /tmp/seed.c.$id) $(grep '^VIOLATION\|^ERROR\|^real' /tmp/seed.c.$id | head -4 | tr '\n' ' ')"
fi
git -C $R checkout -q -- .
bash $BUILD >/tmp/seed.b 2>&1
