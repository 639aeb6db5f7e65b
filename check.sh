#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough] -- builds the verifier and decides one property on /repo's current tree
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
D="$(cd "$(dirname "$0")" && pwd)"
B="$(mktemp -d /tmp/goverbin.XXXXXX)"
trap 'rm -rf "$B"' EXIT
( cd "$D/gover" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "$B/gover" . ) || exit 3
"$B/gover" check -prop "$P" -tier "$T" -verif "$D" -repo "${VERIF_REPO:-/repo}" -cmd "/verif/check.sh $P $T"
