#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME="${HOME:-/root}"
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd gover && go build -o "$tmp/gover" .) || exit 2
"$tmp/gover" check -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"
