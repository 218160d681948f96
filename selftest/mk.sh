#!/bin/bash
# mk.sh good|bad NAME  < python code editing files in the cwd (a scratch copy of /repo): records the diff and runs all checks on it.
kind=$1; name=$2
W=$(mktemp -d /tmp/w.XXXX); cp -a /repo/. $W/ ; cd $W && git checkout -q -- .
cat > /tmp/edit.$$.py
cat > $W/ed.py <<'P'
import re,sys
def sub(f,a,b,n=1):
    s=open(f).read()
    if a in s:
        s=s.replace(a,b,n) if n else s.replace(a,b)
    else: # blank lines do not matter
        ls=[re.escape(l) for l in a.split('\n') if l.strip()]
        r='\n\\s*?\n?'.join(ls) if False else '\n(?:[ \t]*\n)*'.join(ls)
        if a.endswith('\n'): r+='\n'
        assert re.search(r,s), (f,a)
        s=re.sub(r,lambda m:b,s,count=n)
    open(f,'w').write(s)
B='pkg/broker/memory/memory.go'; S='pkg/broker/memory/subscriber.go'; C='pkg/cache/memory/links.go'
G='pkg/graph/memory/'; ST='pkg/store/memory/'; 
P
cat /tmp/edit.$$.py >> $W/ed.py; python3 $W/ed.py || { echo EDIT FAILED; rm -rf $W /tmp/edit.$$.py; exit 1; }
rm -f $W/ed.py /tmp/edit.$$.py
. /opt/vp/env.sh
[ -n "$(git diff)" ] || echo "NO CHANGE $name"
gofmt -l $(git diff --name-only) | sed 's/^/gofmt: /'
git add -N .; git diff > /verif/selftest/$kind/$name.diff
go build ./... || { echo BUILD FAILED $name; }
go vet ./... 2>&1 | grep -v '^#' | head -3
if [ -n "$TEST" ]; then go test ./... 2>&1 | grep -v '^ok\|no test files'; fi
mkdir -p /tmp/ev.$name; NSCHECK_VERIF=/verif NSCHECK_OUT=/tmp/ev.$name NSCHECK_REPO=$W /tmp/nscheck all > /tmp/ev.$name/out.txt 2>&1
echo "$kind $name: $(grep ^VIOL /tmp/ev.$name/out.txt | sed 's/.*property=\([A-Z0-9]*\).*/\1/' | tr '\n' ' ')"
if [ -n "$V" ]; then grep -v '^OK\|^VIOL\|^KNOWN' /tmp/ev.$name/out.txt | cut -c1-400; fi
rm -rf $W /tmp/ev.$name
