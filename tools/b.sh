set -e
. /opt/vp/env.sh
cd /verif/nscheck && GOFLAGS=-mod=mod go build -o /tmp/nscheck .
cd /repo && mkdir -p /tmp/ev && NSCHECK_VERIF=/verif NSCHECK_OUT=/tmp/ev NSCHECK_PANIC=1 /tmp/nscheck "$@"
