#!/bin/bash
# check.sh ID: build the harness (and what it needs of /repo) from the current
# trees and run the check of property ID. VERIF_SEED / VERIF_TIER as given.
set -u
ID=$1
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 GONOSUMDB='*'
export GOPATH=/root/go GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
B=$(mktemp -d /tmp/vchk-$ID-XXXXXX) || exit 2
chmod 755 "$B"
trap 'rm -rf "$B"' EXIT
cp "$V/harness/go.sum" "$B/go.sum"
sed "s#=> /repo#=> $REPO#" "$V/harness/go.mod" > "$B/go.mod"
GOROOT_DIR=$(go env GOROOT)
fail() { echo "check $ID: build failed" >&2; exit 2; }
ov() { python3 "$V/overlay/gen.py" "$GOROOT_DIR" "$B/ov" "$REPO" || fail; }
hb() { (cd "$V/harness" && go build -modfile="$B/go.mod" -o "$B/$1" "${@:2}" .) || fail; }
rb() { (cd "$REPO" && cp go.mod "$B/repo.mod" && cp go.sum "$B/repo.sum" && go build -modfile="$B/repo.mod" -o "$B/$1" "${@:3}" "./src/$2") || fail; }
case $ID in
  C19)
    ov; export CGO_ENABLED=1
    rb ferryd-race ferryd -race -overlay "$B/ov/overlay.json"; hb vh -race -tags ov -overlay "$B/ov/overlay.json" ;;
  C18|C20|C21|C24|C26|C29)
    ov; rb ferryd ferryd -overlay "$B/ov/overlay.json"; rb ferryctl ferryctl; hb vh ;;
  C25|C27|C28)
    ov; rb ferryd ferryd -overlay "$B/ov/overlay.json"; hb vh -tags ov -overlay "$B/ov/overlay.json" ;;
  C08|C11|C13|C14|C15|C16|C17|C22)
    ov; hb vh -tags ov -overlay "$B/ov/overlay.json" ;;
  *) hb vh ;;
esac
"$B/vh" run "$ID" "$V"
