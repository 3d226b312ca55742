#!/bin/bash
# var.sh NAME 'python edit script using R(path,old,new)' MOD PID [unit]
d=/tmp/var/$1; rm -rf $d; mkdir -p $d; cp -a /repo/src $d/src
python3 - "$d/src" <<P
import sys
root=sys.argv[1]
def R(p,a,b,n=1):
    s=open(root+"/"+p).read(); assert a in s,(p,a); open(root+"/"+p,"w").write(s.replace(a,b,n))
$2
P
shift 2
VP_REPO_SRC=$d/src /tmp/pv /tmp/ru.py "$@" 2>&1 | cut -c1-600
