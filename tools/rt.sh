#!/bin/bash
# run the repository's tests on the current /repo in a private namespace
W=$(mktemp -d /tmp/rt.XXXXXX)
unshare -mn bash -c "python3 -c \"import fcntl,socket,struct;s=socket.socket();fcntl.ioctl(s,0x8914,struct.pack('16sh',b'lo',0x49))\"; mount --bind $W /opt/vp/reports; bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1"
python3 - <<P
import json
t=json.load(open('$W/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(t['passed'])
print(len(t['passed']),'passed; missing',sorted(m)[:5])
P
rm -rf "$W"
