#!/bin/bash
# run.sh: applies every recorded diff to a scratch copy of /repo and runs all checks:
# those in bad/ have to be reported, those in good/ have to stay quiet.
. /opt/vp/env.sh
BIN=${BIN:-/verif/bin/nscheck}
one() {
 d=$1; k=$(basename $(dirname $d)); n=$(basename $d .diff)
 W=$(mktemp -d /tmp/w.XXXX); cp -a /repo/. $W/; cd $W
 if ! git apply $d 2>/dev/null; then echo "$k $n: DOES NOT APPLY"; rm -rf $W; return; fi
 mkdir $W/.ev; NSCHECK_VERIF=/verif NSCHECK_OUT=$W/.ev NSCHECK_REPO=$W $BIN all > $W/.ev/out 2>&1
 r=$(grep ^VIOL $W/.ev/out | sed 's/.*property=\([A-Z0-9]*\).*/\1/' | tr '\n' ' ')
 s=ok; if [ $k = good ] && [ -n "$r" ]; then s=FALSE-ALARM; fi; if [ $k = bad ] && [ -z "$r" ]; then s=MISSED; fi
 echo "$s $k $n: $r"
 rm -rf $W
}
export -f one; export BIN
ls ${1:-/verif/selftest/bad/*.diff /verif/selftest/good/*.diff} | xargs -P 8 -I{} bash -c 'one {}' | sort
