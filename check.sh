#!/bin/bash
# check.sh ID quick|thorough : decide one property on the current tree of /repo
# check.sh replay FILE       : rerun a reported counterexample natively
set -u
V=$(cd "$(dirname "$0")" && pwd)
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOSUMDB=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
T=$(mktemp -d "${TMPDIR:-/tmp}/gosymbin.XXXXXX") || exit 2
trap 'rm -rf "$T"' EXIT
( cd "$V/gosym" && GOWORK=off GOFLAGS=-mod=mod go build -o "$T/gosym" ./cmd/gosym ) || { echo "ERROR: cannot build gosym"; exit 2; }
R="${VERIF_REPO:-/repo}"
if [ "${1:-}" = replay ]; then
  "$T/gosym" -replay "$2" -repo "$R" -verif "$V"; exit $?
fi
"$T/gosym" -prop "$1" -tier "${2:-quick}" -repo "$R" -verif "$V" "${@:3}"
