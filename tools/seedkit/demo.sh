#!/bin/bash
# Runs demo_test.go inside the package it names on its first line, against the
# tree in the current directory. Exit 0: behaves as it should.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export GOPATH=/root/go GOCACHE=/root/.cache/go-build
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp go.mod go.sum "$T/" || exit 3
P=$(sed -n '1s#^// *demo: *##p' "$D/demo_test.go")
{
  echo '{"Replace": {'
  [ -e "$D/kit_test.go" ] && echo "\"$R/$P/zz_kit_test.go\": \"$D/kit_test.go\","
  echo "\"$R/$P/zz_demo_test.go\": \"$D/demo_test.go\"}}"
} > "$T/ov.json"
TMPDIR=$T timeout 250 go test -modfile="$T/go.mod" -overlay "$T/ov.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' "./$P"
