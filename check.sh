#!/bin/bash
# usage: check.sh PROPERTY [TIER] -- builds the verifier and runs it on /repo's current tree
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d /tmp/vcgbin.XXXXXX)
trap 'rm -rf "$out"' EXIT
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOPROXY=off GOTOOLCHAIN=local
(cd "$here/vcg" && GOFLAGS=-mod=mod /usr/local/bin/go build -o "$out/vcg" .) || { echo "building the verifier failed"; exit 2; }
VERIF_DIR="$here" VERIF_TIER="${2:-${VERIF_TIER:-quick}}" "$out/vcg" check -prop "$1"
