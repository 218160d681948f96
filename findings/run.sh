#!/bin/bash
# usage: run.sh [TREE] [-test.run=...]   runs the demonstrations against TREE (default /repo)
here=$(cd "$(dirname "$0")" && pwd); tree=${1:-/repo}; shift
. /opt/vp/env.sh
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
echo "{\"Replace\":{\"$tree/pkg/findings/findings_test.go\":\"$here/findings_test.go\"}}" > "$d/ov"
cd "$tree" && go test -vet=off -c -o "$d/t" -overlay "$d/ov" ./pkg/findings && cd "$d" && ./t -test.timeout 2m "$@"
