#!/bin/bash
# seedtest.sh ID...: validates planted bugs (demo passes on HEAD, stable tests pass and demo fails
# with the patch) and runs the quick check of the property (CHECKS="C01 .." to run others as well).
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 1; }
  bash $d/demo.sh >/tmp/seed.out 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/seed.out2 2>&1; b=$?
  if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; bu=$?
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 -c "
import json;o=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(len(set(b['stable'])-set(o['passed'])))"); fi
  res=""
  for c in $prop $CHECKS; do
    (cd /verif; bash run.sh $c quick >/tmp/seed.$c 2>&1); r=$?
    res="$res $c:$r"
  done
  git checkout -q -- .
  echo "$id clean-demo=$a patched-demo=$b build=$bu stable-missing=$t checks:$res"
done
