#!/bin/bash
# mut.sh N 'R(...)' PID : harness alone on a variant
d=/tmp/var/$1; rm -rf $d; mkdir -p $d; cp -a /repo/src $d/src
python3 - "$d/src" <<P
import sys
root=sys.argv[1]
def R(p,a,b,n=1):
    s=open(root+"/"+p).read(); assert a in s,(p,a); open(root+"/"+p,"w").write(s.replace(a,b,n))
$2
P
mkdir -p /tmp/w; cd /tmp/w; VP_REPO_SRC=$d/src /opt/venv/bin/python /verif/harness/worker.py $3 --budget ${4:-12} --seed 1 | cut -c1-300
