#!/bin/bash
# Builds the monitors against /repo's working tree and runs those of one
# property:   run.sh PROPERTY [flags of the driver]
# VERIF_TIER and VERIF_SEED choose the depth and the workload.
dir=$(cd "$(dirname "$0")" && pwd)
prop=$1
shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
case $prop in
E17 | D07 | D10) race=-race cgo=1 ;;
*) race= cgo=0 ;;
esac
work=$(mktemp -d "${TMPDIR:-/tmp}/etxemon.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$dir/harness" "$work/src" || exit 2
[ -d "$GOCACHE" ] && [ -w "$GOCACHE" ] || export GOCACHE=$work/cache
build() { (cd "$work/src" && CGO_ENABLED=$cgo go build $race "$@" -o "$work/mon" .); }
# The hook behind the tag verif only saves time: the checks do without it.
build -tags verif 2>"$work/tagged" || build || {
  echo "the monitors do not build against /repo" >&2
  exit 2
}
mkdir "$work/run"
"$work/mon" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -dir "$dir" -work "$work/run" "$@"
