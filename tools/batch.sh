#!/bin/bash
# batch.sh FILE: file has blocks "### kind name" followed by python; runs in parallel
python3 - "$1" <<'P'
import sys,re,subprocess,os
from concurrent.futures import ThreadPoolExecutor
t=open(sys.argv[1]).read()
bl=re.split(r'^### (\S+) (\S+)\n',t,flags=re.M)[1:]
jobs=[(bl[i],bl[i+1],bl[i+2]) for i in range(0,len(bl),3)]
def run(j):
    r=subprocess.run(['bash','/verif/selftest/mk.sh',j[0],j[1]],input=j[2],capture_output=True,text=True)
    return r.stdout+r.stderr
with ThreadPoolExecutor(6) as ex:
    for o in ex.map(run,jobs): print(o,end='')
P
