#!/bin/bash
# tools/seed.sh ID [CHECK...] : confirms seeded/ID in a scratch copy: applies, builds, demo exits 0 before and nonzero after, tests pass;
# then runs the named checks (default: the property's) against the patched copy.   NOTEST=1 skips the test suite.
set -u
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed-XXXXXX)
cp -a /repo "$W/repo"
sed "s#/repo#$W/repo#g" /opt/vp/env.sh > "$W/env.sh"
sed "s#/opt/vp/env.sh#$W/env.sh#; s#cd /repo#cd $W/repo#" /opt/vp/build.sh > "$W/build.sh"
cp -a "$S" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
# the demos run in /repo itself when they count; here VPDEMO_REPO is the working directory
cd "$W/repo" || exit 2
if [ -z "${SKIPCLEAN:-}" ]; then
  bash "$W/build.sh" > "$W/b0.log" 2>&1 || echo "BUILD0 FAILED"
  timeout 300 bash "$W/demo/demo.sh" > "$W/d0.log" 2>&1; echo "$id demo unchanged: $? (want 0)"; tail -2 "$W/d0.log"
fi
git apply "$S/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 2; }
bash "$W/build.sh" > "$W/b1.log" 2>&1 || { echo "BUILD FAILED"; grep -E '^error' -A6 "$W/b1.log" | head -20; }
timeout 300 bash "$W/demo/demo.sh" > "$W/d1.log" 2>&1; echo "$id demo patched: $? (want != 0)"; tail -3 "$W/d1.log"
cd /verif
for c in ${@:-$prop}; do
  VP_REPO=$W/repo VP_EVIDENCE=$W/ev python3 /verif/check.py $c > "$W/c.log" 2>&1; echo "check $c: exit $?"; tail -3 "$W/c.log" | cut -c1-400
done
if [ -z "${NOTEST:-}" ]; then
  # the tests use fixed ports and paths of /repo: run them from the copy, one at a time
  (
  flock 9
  cd "$W/repo"
  sed "s#/opt/vp/env.sh#$W/env.sh#; s#cd /repo#cd $W/repo#; s#/opt/vp/e2e.py#$W/e2e.py#" /opt/vp/test.sh > "$W/test.sh"
  sed "s#\"/repo\"#\"$W/repo\"#; s#/repo/target#$W/repo/target#g" /opt/vp/e2e.py > "$W/e2e.py"
  bash "$W/test.sh" "$W/out.json" > "$W/t.log" 2>&1
  python3 - "$W/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
m=sorted(b-set(o['passed'])); print("tests: stable not passing:",len(m),m[:4])
P
  ) 9>/tmp/seedtest.lock
fi
rm -rf "$W"
