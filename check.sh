#!/bin/bash
# check.sh ID [quick|thorough] [options]: builds the harness and the tool from
# the current /repo tree, then runs the monitor of one property.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off VERIF_DIR="$here"
bindir="$(mktemp -d)" || exit 3
trap 'rm -rf "$bindir"' EXIT
(cd "$here/harness" && GOFLAGS= go build -buildvcs=false -o "$bindir/verif" .) || exit 3
"$bindir/verif" "$@"
