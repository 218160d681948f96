#!/bin/bash
# mkseed.sh NAME PROPERTY PKG PATCH NEEDS BREAKS < demo test: records a planted bug in /verif/seeded and confirms it.
name=$1; prop=$2; pkg=$3; patch=$4
S=/verif/seeded/$name; mkdir -p "$S"; cat > "$S/demo.go.txt"
[ -n "$patch" ] && [ "$patch" != "$S/patch.diff" ] && cp "$patch" "$S/patch.diff"
python3 -c 'import json,sys; json.dump({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},open(sys.argv[4],"w"),indent=1)' "$prop" "$5" "$6" "$S/meta.json"
cat > "$S/demo.sh" <<X
#!/bin/bash
# Exits 0 when the demonstration passes on the tree in the current directory.
D=\$(cd "\$(dirname "\$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=\$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "\$T"' EXIT
cp "\$D/demo.go.txt" "\$T/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_seed_demo_test.go\":\"\$T/demo_test.go\"}}" > "\$T/overlay.json"
go test ${RACE:+-race }-vet=off -count=1 -timeout 120s -overlay "\$T/overlay.json" -run '^TestSeedDemo\$' ./$pkg
X
chmod +x "$S/demo.sh"
W=$(mktemp -d /tmp/w.XXXXXX); cp -a /repo/. "$W/"; cd "$W" && git checkout -q -- .
bash "$S/demo.sh" > "$W.out" 2>&1; c=$?
git apply "$S/patch.diff" || echo "PATCH FAILED"
. /opt/vp/env.sh
go build ./... || echo "BUILD FAILED"
t=$(go test ./... 2>&1 | grep -v '^ok\|no test files' | head -5)
bash "$S/demo.sh" > "$W.out2" 2>&1; b=$?
o=$(python3 /verif/tools/origlines.py "$S/patch.diff")
mkdir -p "$W.ev"; r=$(NSCHECK_VERIF=/verif NSCHECK_OUT=$W.ev NSCHECK_REPO=$W /tmp/nscheck all 2>&1 | grep ^VIOL | sed 's/.*property=\([A-Z0-9]*\).*/\1/' | tr '\n' ' ')
echo "$name ($prop): clean=$c (want 0) bug=$b (want not 0) tests='$t' lines=$o caught by: $r"
[ $c != 0 ] && cat "$W.out"; [ $b = 0 ] && cat "$W.out2"
grep -q 'build failed\|setup failed' "$W.out2" && cat "$W.out2"
[ -n "$SHOW" ] && cat "$W.out2"
rm -rf "$W" "$W.out" "$W.out2" "$W.ev"
