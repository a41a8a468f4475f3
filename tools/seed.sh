#!/bin/bash
# tools/seed.sh ID [notest]: confirm the planted change /verif/seeded/ID in a
# scratch copy of /repo that is bind-mounted over /repo in a private namespace.
# Prints one line: ID build tests demo-clean demo-patched own-check
ID=$1; NOTEST=$2
D=/verif/seeded/$ID
P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX)
mkdir -p $W/reports $W/v $W/demo
cp -a /repo $W/repo
cp -a /verif/verifier /verif/known_findings.txt $W/v/
cp $D/demo.sh $W/demo/; for f in $D/*; do case $f in *.diff|*.json) ;; *) cp -r $f $W/demo/;; esac; done
git -C $W/repo apply $D/patch.diff || { echo "$ID PATCH-FAILS"; rm -rf "$W"; exit 1; }
unshare -mn bash -c "
ip link set lo up 2>/dev/null || python3 -c \"import fcntl,socket,struct;s=socket.socket();fcntl.ioctl(s,0x8914,struct.pack('16sh',b'lo',0x49))\"
mount --bind $W/reports /opt/vp/reports
cd /repo; timeout 300 bash $W/demo/demo.sh >$W/clean.log 2>&1; echo \$? >$W/clean
mount --bind $W/repo /repo
cd /repo
bash /opt/vp/build.sh >$W/build.log 2>&1; echo \$? >$W/build
timeout 300 bash $W/demo/demo.sh >$W/demo.log 2>&1; echo \$? >$W/patched
if [ -z '$NOTEST' ]; then bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; fi
cd $W/v && VERIF_TIER=quick python3 -m verifier $P >$W/check.log 2>&1; echo \$? >$W/check
"
T=skipped
if [ -z "$NOTEST" ]; then T=$(python3 - <<E2
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
def passed(x):
    x=x.get("passed",x.get("stable",x)) if isinstance(x,dict) else x
    return set(x if isinstance(x,list) else [k for k,v in x.items() if v in('passed','pass',True)])
try:
    m=passed(b)-passed(t); print('ok' if not m else 'FAIL:'+','.join(sorted(m)[:3]))
except Exception as e: print('?',e)
E2
); fi
echo "$ID [$P] build=$(cat $W/build) tests=$T clean=$(cat $W/clean) patched=$(cat $W/patched) check=$(cat $W/check)"
[ -n "$VERBOSE" ] && { tail -5 $W/clean.log; echo ---; tail -5 $W/demo.log; echo ---; tail -5 $W/check.log | cut -c1-250; }
rm -rf "$W"
