#!/bin/bash
# Runs the test beside this script against the grate tree in the current directory.
# Exit 0: the property holds; nonzero: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off TZ=UTC
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GRATE_REPO="$repo"
d=$(mktemp -d /tmp/grate-demo.XXXXXX) || exit 3
trap 'find "$d" -delete' EXIT
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    printf '%s"%s/zzdemo/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$d/o.json"
go test -c -vet=off -overlay "$d/o.json" -o "$d/demo.test" ./zzdemo || exit 3
cd "$d" && mkdir tmp && TMPDIR="$d/tmp" ./demo.test -test.v -test.timeout 120s
