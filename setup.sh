#!/bin/bash
# nothing to build: checks that the tools are there and the specifications parse
cd "$(dirname "$0")" || exit 1
set -e
command -v tlc >/dev/null
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp spec/*.tla "$d"
cd "$d"
for f in *.tla; do tla-sany "$f" >"$d/out" 2>&1 || { cat "$d/out"; exit 1; }; done
echo setup ok
