#!/bin/bash
# t.sh PKG TESTREGEX [go test args]: runs harness tests directly (development aid; TREPO: another tree)
set -e
W=$(mktemp -d /tmp/zvt.XXXX)
trap 'rm -rf "$W"' EXIT
cd /verif && python3 - "$W" <<'P'
import sys; sys.path.insert(0,'/verif'); import os, check; check.REPO = os.environ.get('TREPO', '/repo'); check.prepare(sys.argv[1])
P
PKG=$1; RE=$2; shift 2
D=$(cd /verif && python3 -c "import check; print(check.OVERLAYS['$PKG'])")
export GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local PATH=/usr/local/go/bin:$PATH
export VERIF_REPO=${TREPO:-/repo} VERIF_WORK=$W VERIF_OVERLAY=$W/overlay.json VERIF_MODFILE=$W/verif.mod
(cd ${TREPO:-/repo} && go test -c -vet=off $BUILDARGS -overlay $W/overlay.json -modfile $W/verif.mod -o $W/bin ./$D)
cd $W && ./bin -test.run "$RE" "$@"
