#!/bin/bash
# seed_try.sh ID [notest] [nocheck]: confirm planted bug in scratch copy
id=$1; shift
opts=" $* "
S=/verif/seeded/$id
W=/tmp/seedtry/$id
rm -rf /tmp/seedtry/$id; mkdir -p /tmp/seedtry
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1
cp -a /repo $W || exit 2
cd $W
rm -f .doit.db
demo() { ( cp -r $S $W.demo; rm -f $W.demo/*.diff $W.demo/meta.json; cd $W; timeout 300 bash $W.demo/demo.sh >$W.demo.log 2>&1; r=$?; rm -rf $W.demo; exit $r ); }
demo; base=$?
[ $base = 0 ] || { echo "$id: demo fails on unchanged tree ($base)"; tail -5 $W.demo.log; }
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
demo; bug=$?
[ $bug != 0 ] || { echo "$id: demo passes with the patch"; tail -5 $W.demo.log; }
if [[ $opts != *" notest "* ]]; then
  PYTHONPATH=$W/src_py PYTHONHASHSEED=0 python -m pytest -q -p hat.doit.pytest --unit --perf -p no:cacheprovider --timeout=120 --continue-on-collection-errors --ignore=test_pytest/test_common/test_collection.py --ignore=test_pytest/test_common/test_collection_perf.py --ignore=test_pytest/test_common/test_subscription.py --ignore=test_pytest/test_common/test_subscription_perf.py --basetemp=$W.pt -o junit_family=xunit2 --junitxml=$W.xml >$W.tlog 2>&1
  echo "$id: tests: $(tail -1 $W.tlog)"; grep FAILED $W.tlog | head -5
  rm -rf $W.pt $W.xml
fi
if [[ $opts != *" nocheck "* ]]; then
  prop=$(python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif; VERIF_REPO=$W VERIF_SEED=${SEED:-1} python3 check.py check $prop >$W.clog 2>&1; r=$?
  echo "$id: check $prop exit $r: $(grep -v '^note' $W.clog | tail -3 | cut -c1-400)"
fi
rm -rf /tmp/seedtry/$id
