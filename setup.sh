#!/bin/bash
# Builds the analyser. Offline: the modules are in the module cache.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence
cd nscheck && GOFLAGS=-mod=mod go build -trimpath -o ../bin/nscheck .
