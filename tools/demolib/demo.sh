#!/bin/bash
# Builds the demonstration beside this script against the tree in the current
# directory, and runs it: exit 0 if the property held, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
repo=$(pwd)
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/*.go; do
    to=vpdemo
    case $(basename "$f") in in_*) to=internal/$(basename "$f" .go | cut -d_ -f2) ;; esac
    printf '%s"%s/%s/%s":"%s"' "$sep" "$repo" "$to" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$tmp/overlay.json"
GOFLAGS=-mod=readonly go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./vpdemo || exit 3
TMPDIR="$tmp" "$tmp/demo"
