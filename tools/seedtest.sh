#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in private copies of /repo and /verif (bind mounts in a user namespace), in parallel
one() {
  id=$1; w=/tmp/sw.$id; s=/verif/seeded/$id
  rm -rf "/tmp/sw.$id" "/tmp/sv.$id"
  cp -a ${SRC:-/repo} $w; cp -a /verif /tmp/sv.$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  unshare -Urm bash -c "
    mount --bind $w /repo && mount --bind /tmp/sv.$id /verif && cd /repo && git checkout -q -- . 
    if [ \"$DEMO_ONLY\" = 2 ]; then :; else bash $s/demo.sh > /tmp/sv.$id/demo0.log 2>&1; d0=\$?; fi
    git apply $s/patch.diff || { echo '$id: patch does not apply'; exit 1; }
    if [ \"$DEMO_ONLY\" = 2 ]; then d1=-; np=-; else
    bash /opt/vp/build.sh > /tmp/sv.$id/build.log 2>&1 || { echo '$id: does not build'; tail -5 /tmp/sv.$id/build.log; exit 1; }
    bash $s/demo.sh > /tmp/sv.$id/demo1.log 2>&1; d1=\$?
    np=-
    if [ -z \"$DEMO_ONLY\" ]; then bash /opt/vp/test.sh /tmp/sv.$id/t.json >/dev/null 2>&1; np=\$(python3 -c \"
import json;t=json.load(open('/tmp/sv.$id/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
print(len(t['passed']),len(set(b)-set(t['passed'])))\"); fi; fi
    c=-; if [ -z \"$NO_CHECK\" ]; then cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop > /tmp/sv.$id/check.log 2>&1; c=\$?; fi
    echo \"$id: demo unchanged=\$d0 changed=\$d1 tests(passed,lost)=\$np check $prop=\$c \$(grep -sm1 VIOLATION /tmp/sv.$id/check.log)\"
    [ \"\$d0\" = 0 -o \"$DEMO_ONLY\" = 2 ] || tail -5 /tmp/sv.$id/demo0.log"
  [ -n "$KEEP" ] || rm -rf "/tmp/sw.$id" "/tmp/sv.$id"
}
for id in "$@"; do
  one $id &
  while [ $(jobs -r | wc -l) -ge ${JOBS:-3} ]; do wait -n; done
done
wait
