#!/bin/bash
# bash run.sh ID [quick|thorough|replay PATH] [harness]
# Builds the explorer against /repo's current working tree and decides one property.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off TZ=UTC GOSUMDB=off
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
tmp=$(mktemp -d /tmp/grate-mc-bin.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
export VERIF_TMP="$tmp"
(cd "$VERIF_DIR/mc" && go build -o "$tmp/mc" .) || { echo "build of the explorer against /repo failed" >&2; exit 2; }
"$tmp/mc" "$@"
