#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo (/tmp/seedrepo is bind-free: the copy is swapped in by path rewriting)
# needs: patch applies, builds, tests pass, demo passes without and fails with the patch.
S=/tmp/seedwork; rm -rf $S; mkdir -p $S
for id in "$@"; do
  d=/verif/seeded/$id
  cp -a $d $S/$id; rm -f $S/$id/patch.diff $S/$id/meta.json
  cd /repo && git diff --quiet || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >$S/build.log 2>&1 || { echo "$id: base build failed"; continue; }
  timeout 300 bash $S/$id/demo.sh >$S/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >$S/build.log 2>&1; then
    bash /opt/vp/test.sh $S/t.json >$S/test.log 2>&1; t=$(tail -1 $S/test.log)
    timeout 300 bash $S/$id/demo.sh >$S/demo1.log 2>&1; b=$?
    echo "$id: demo $a -> $b ($(tail -1 $S/demo1.log)); tests: $t"
    [ -n "$CHECK" ] && for p in $CHECK; do out=$(/verif/check.sh $p quick 2>&1); echo "   $p rc=$? $(echo "$out" | grep -c ^VIOLATION) violations"; done
  else echo "$id: build failed: $(grep -m1 ^error $S/build.log)"; fi
  git checkout -q -- .
done
rm -rf /tmp/seedwork
