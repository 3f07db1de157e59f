#!/bin/bash
# setup.sh: builds the harness once, so that the checks find a warm build cache.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" HOME="${HOME:-/root}"
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p "$here/evidence"
d="$(mktemp -d)" && trap 'rm -rf "$d"' EXIT
(cd "$here/harness" && GOFLAGS= go build -buildvcs=false -o "$d/verif" .)
