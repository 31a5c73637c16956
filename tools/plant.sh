#!/bin/bash
# plant.sh ID...: confirm planted bugs in a private copy of /repo bind-mounted over /repo,
# then run the property's check against it.  NOTEST=1 skips the test suite.
V=/verif
one() {
  id=$1; d=$V/seeded/$id; w=/tmp/plant/$id; rm -rf "/tmp/plant/$id"; mkdir -p /tmp/plant; cp -a /repo $w; cp -a $d $w.d; cp -a $V /tmp/plant/$id.v
  rm -f $w.d/patch.diff.bak
  unshare -Urm bash -c "mount --bind $w /repo; mount --bind /tmp/plant/$id.v /verif; cd /repo
    bash $w.d/demo.sh >/tmp/plant/$id.demo0 2>&1; r0=\$?
    git apply $d/patch.diff || { echo '$id: PATCH DOES NOT APPLY'; exit; }
    bash /opt/vp/build.sh >/tmp/plant/$id.build 2>&1 || { echo '$id: BUILD FAILED'; tail -n 5 /tmp/plant/$id.build; exit; }
    bash $w.d/demo.sh >/tmp/plant/$id.demo1 2>&1; r1=\$?
    t=skipped
    if [ -z \"$NOTEST\" ]; then bash /opt/vp/test.sh /tmp/plant/$id.json >/tmp/plant/$id.test 2>&1
      t=\$(python3 -c \"import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/plant/$id.json'))['passed']);print(len(b-p),sorted(b-p)[:2])\"); fi
    p=\$(python3 -c \"import json;print(json.load(open('$d/meta.json'))['property'])\")
    VERIF_SEED=1 timeout 900 python3 $V/run.py \$p quick >/tmp/plant/$id.check 2>&1; rc=\$?
    echo \"$id: demo \$r0 -> \$r1; broken stable tests: \$t; check \$p exit \$rc: \$(grep -h VIOLATION /tmp/plant/$id.check | sed 's/replay=[^ ]*//') \$(grep -h 'failing input' /tmp/plant/$id.check | head -n1 | cut -c1-120)\$(grep -h 'failed obligation' /tmp/plant/$id.check | head -n2 | tr '\n' ' ')\"
  "
  rm -rf "/tmp/plant/$id" "/tmp/plant/$id.d" "/tmp/plant/$id.v"
}
export -f one; export V NOTEST
printf '%s\n' "$@" | xargs -P ${J:-3} -I{} bash -c 'one {}'
