#!/bin/bash
# usage: check.sh PROPERTY...   runs the static checks of the given properties on /repo's working tree
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
export HOME="${HOME:-/root}"
bin=bin/fabcheck
build() {
	mkdir -p bin && ( cd checker && go build -o ../bin/fabcheck.new . ) && mv bin/fabcheck.new "$bin"
}
if [ "$1" = --build ]; then build; exit; fi
if [ ! -x "$bin" ] || [ -n "$(find checker -newer "$bin" -name '*.go' -print -quit)" ]; then
	build || { echo "cannot build the checker"; exit 2; }
fi
exec "$bin" "$@"
