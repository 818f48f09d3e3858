#!/bin/bash
# seed_try.sh ID [PROP ...]: confirm a planted change in a scratch copy of /repo (bind-mounted over /repo in a
# private mount namespace) and run the checks of its property (or of the given ones) against it.
# With SKIP_TESTS=1 the test suite is not run again.
ID=$1; shift
D=/verif/seeded/$ID
[ -f $D/patch.diff ] || { echo "no $D"; exit 2; }
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seed.XXXXXX)
mkdir $W/repo $W/demo
tar -C /repo --exclude=__pycache__ -cf - . | tar -C $W/repo -xf -
cp $D/* $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
export D W PROPS ID
unshare -m bash -c '
mount --bind $W/repo /repo
cd /repo
bash $W/demo/demo.sh >$W/d0.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if bash $W/demo/demo.sh >$W/d1.log 2>&1; then b=0; else b=$?; fi
t=skipped
if [ -z "$SKIP_TESTS" ]; then
  bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
  t=$(python3 /verif/tools/cmp_tests.py $W/t.json)
fi
[ $a = 0 ] && [ $b != 0 ] && g=ok || g="BAD(tail: $(tail -2 $W/d0.log | tr "\n" " ") // $(tail -2 $W/d1.log| tr "\n" " "))"
echo "$ID: demo clean=$a patched=$b $g; tests: $t"
for p in $PROPS; do
  cd /verif
  timeout 900 ./run $p >$W/c.$p.log 2>&1; rc=$?
  echo "   $p: exit $rc $(grep -c "^VIOLATION property=$p" $W/c.$p.log) | $(grep -E "^  [a-z].*records\)|ERROR" $W/c.$p.log | head -4 | tr "\n" ";")"
done
'
rm -rf "$W"
