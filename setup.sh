#!/bin/bash
# Warms the build cache: the checks build for themselves in any case.
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
work=$(mktemp -d "${TMPDIR:-/tmp}/etxemon.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$dir/harness" "$work/src"
[ -d "$GOCACHE" ] && [ -w "$GOCACHE" ] || export GOCACHE=$work/cache
cd "$work/src" || exit 2
build() { CGO_ENABLED=0 go vet "$@" . && CGO_ENABLED=0 go build "$@" -o /dev/null . && CGO_ENABLED=1 go build -race "$@" -o /dev/null .; }
build -tags verif || build
