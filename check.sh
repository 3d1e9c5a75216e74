#!/bin/bash
# bash check.sh PROPERTY: decides one property from /repo's current source.
# Exit 0: holds. Exit 1 and a VIOLATION line: broken. Writes evidence/PROPERTY.json.
verif=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off CGO_ENABLED=0
mkdir -p "$verif/bin" "$verif/evidence"
(cd "$verif/cddlvet" && go build -o "$verif/bin/cddlvet" .) || { echo "the analyser does not build"; exit 3; }
[ "$1" = --build ] && exit 0
exec "$verif/bin/cddlvet" -verif "$verif" -repo /repo -property "$1"
