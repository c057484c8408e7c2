#!/bin/bash
# Builds the engine once, which shows that the toolchain and the module cache are in place.
verif=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$verif/engine" && go build -o "$tmp/gosym" .
