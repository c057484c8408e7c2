#!/bin/bash
# check.sh PROPERTY: builds the engine and decides the property on /repo's working tree.
# exit 0 held, 1 violated (VIOLATION line on stdout), 2 no answer (cannot load or build).
prop=${1:?usage: check.sh PROPERTY}
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/gosym.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$verif/engine" && go build -o "$tmp/gosym" .) || { echo "engine build failed" >&2; exit 2; }
mkdir -p "$verif/evidence"
"$tmp/gosym" -prop "$prop" -repo "$repo" -verif "$verif" "${@:2}"
