#!/bin/sh
# build: compile the checker. check ID: run the check of one property.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=vendor GOPROXY=off GOWORK=off GOTOOLCHAIN=local
build() {
	(cd checker && go build -o bin/chk.$$ . && mv bin/chk.$$ bin/chk)
}
case "$1" in
build) build ;;
check)
	newest=$(find checker -name '*.go' -newer checker/bin/chk -not -path '*/vendor/*' 2>/dev/null | head -1 || true)
	if [ ! -x checker/bin/chk ] || [ -n "$newest" ]; then build 1>&2; fi
	VERIF_DIR=$(pwd) exec ./checker/bin/chk check "$2"
	;;
*) echo "usage: run.sh build | check ID" >&2; exit 2 ;;
esac
