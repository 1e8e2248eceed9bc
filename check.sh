#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on /repo's current tree.
# Builds the engine, loads the harness packages that carry the property, and
# runs them. Exit 0: held on everything explored; exit 1: VIOLATION line.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export HOME=${HOME:-/root}
tmp=$(mktemp -d /tmp/vpcheck.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$here/evidence"
(cd "$here/engine" && go build -o "$tmp/engine" .) || exit 2
pkgs=$(grep -rlE "^//vp:harness $id( |\$)" "$here/harness/zzvp/h" --include=*.go | xargs -n1 dirname | xargs -n1 basename | sort -u | paste -sd,)
[ -n "$pkgs" ] || { echo "no harness for $id" >&2; exit 2; }
"$tmp/engine" check -prop "$id" -tier "$tier" -pkgs "$pkgs" -repo /repo -verif "$here" "$@"
exit $?
