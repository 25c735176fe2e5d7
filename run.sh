#!/bin/bash
# run.sh setup           build the analyzer
# run.sh <PROPERTY>      decide one property on /repo's current tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH"
export GOPATH="${GOPATH:-$HOME/go}" GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
export GOMODCACHE="${GOMODCACHE:-$GOPATH/pkg/mod}"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
build() {
  mkdir -p "$here/bin" && cd "$here/analyzer" && go build -o "$here/bin/analyzer.$$" . && mv "$here/bin/analyzer.$$" "$here/bin/analyzer"
}
if [ "${1:-}" = setup ]; then build; exit $?; fi
if [ ! -x "$here/bin/analyzer" ] || [ -n "$(find "$here/analyzer" -newer "$here/bin/analyzer" -name '*.go' -print -quit)" ]; then
  build || { echo "VIOLATION property=$1 replay=$here/run.sh (analyzer does not build)"; exit 1; }
fi
cd "$here"
exec "$here/bin/analyzer" -property "$1"
