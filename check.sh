#!/bin/bash
# check.sh <property> <quick|thorough>: build from /repo's working tree and check one property.
# check.sh replay <file>: run one replay file.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
trap 'exit 2' INT TERM
export TMPDIR=$tmp
prop=$1
if [ "$prop" = replay ]; then
  prop=$(sed -n 's/.*"Property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
fi
race=
[ "$prop" = C12 ] && race=-race
if ! (cd "$here/harness" && go build $race -o "$tmp/verif" .) >"$tmp/build.log" 2>&1; then
  echo "build of the harness against /repo failed:"
  cat "$tmp/build.log"
  exit 2
fi
if [ "$1" = replay ]; then
  "$tmp/verif" replay "$2"
else
  "$tmp/verif" check "$1" "${2:-${VERIF_TIER:-quick}}" "$here" "$tmp"
fi
