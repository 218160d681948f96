# run.sh T : apply transformation T to all files which still build; tests; checks; record
T=$1
. /opt/vp/env.sh
W=$(mktemp -d /tmp/w.XXXX); cp -a /repo/. $W/; cd $W
for f in $(git ls-files '*.go' | grep -v _test.go); do
  cp $f /tmp/refac/bak.$T; /tmp/refac/refac $T $f 2>/dev/null || { cp /tmp/refac/bak.$T $f; echo "PANIC $T $f"; continue; }
  go build ./... >/dev/null 2>/tmp/refac/err.$T && go vet ./$(dirname $f) >/dev/null 2>&1 || { cp /tmp/refac/bak.$T $f; echo "skip $T $f $(grep -v '^#' /tmp/refac/err.$T | head -1)"; }
done
t=$(go test ./... 2>&1 | grep -v '^ok\|no test files' | head -3)
[ -n "$t" ] && echo "TESTS $T $t"
git diff > /verif/selftest/good/ast_$T.diff
mkdir $W/.ev; NSCHECK_VERIF=/verif NSCHECK_OUT=$W/.ev NSCHECK_REPO=$W /tmp/nscheck all > $W/.ev/out 2>&1
echo "$T: $(git diff --stat | tail -1) ALARMS $(grep ^VIOL $W/.ev/out | sed 's/.*property=\([A-Z0-9]*\).*/\1/' | tr '\n' ' ')"
cd /; rm -rf $W
