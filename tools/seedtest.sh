#!/bin/bash
# seedtest.sh ID [nocheck|notest]...: a planted bug in a private copy of /repo (needs mount
# privileges): demo on the unchanged tree, patch, build, tests, demo, the
# property's check. Prints one line.
id=$1; shift; opts=" $* "
slot=/tmp/seedslot.$$; mkdir -p $slot/out $slot/evidence
cp -a /repo $slot/repo; cp -a /verif/seeded/$id $slot/demo
prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $slot/demo/meta.json)
unshare -m bash -s $slot $id $prop "$opts" <<'I'
slot=$1; id=$2; prop=$3; opts=$4
mount --bind $slot/repo /repo; mkdir -p /verif/out /verif/evidence
mount --bind $slot/out /verif/out; mount --bind $slot/evidence /verif/evidence
cd /repo; git checkout -q -- .; r=""
bash /opt/vp/build.sh >$slot/log 2>&1 || r="$r CLEANBUILD"
timeout 300 bash $slot/demo/demo.sh >$slot/demo1.log 2>&1 || r="$r DEMO-FAILS-CLEAN($?)"
git apply $slot/demo/patch.diff || r="$r NOAPPLY"
bash /opt/vp/build.sh >$slot/log 2>&1 || r="$r NOBUILD"
if [[ $opts != *notest* ]]; then
  bash /opt/vp/test.sh $slot/t.json >$slot/test.log 2>&1
  n=$(python3 -c 'import json;b=json.load(open("/opt/vp/BASELINE.json"));t=json.load(open("'$slot'/t.json"));s=set(b.get("passed",b.get("stable",b.get("tests",[]))));print(len(s),len(s&set(t["passed"])),sorted(s-set(t["passed"]))[:3])')
  r="$r tests:$n"
fi
timeout 300 bash $slot/demo/demo.sh >$slot/demo2.log 2>&1; d=$?; r="$r demo:$d"
if [[ $opts != *nocheck* ]]; then
  cd /verif; s=$(date +%s)
  XD_CACHE=$slot/cache VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $prop >$slot/check.log 2>&1; c=$?
  r="$r check:$c($(( $(date +%s)-s ))s)"
  r="$r $(grep VIOLATION $slot/check.log | head -1)"
  cp $slot/check.log /tmp/seed-$id.check
fi
cp $slot/demo2.log /tmp/seed-$id.demo; cp $slot/demo1.log /tmp/seed-$id.demo1; cp $slot/test.log /tmp/seed-$id.test 2>/dev/null
echo "$id $prop$r"
I
rm -rf /tmp/seedslot.$$
