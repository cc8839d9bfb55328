#!/bin/bash
# Nothing is compiled: check that the toolchain, the specifications and the library load.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
command -v tlc >/dev/null
/opt/venv/bin/python -c 'import v8serialize'
M="$(mktemp -d)"
for m in spec/*.tla; do
  (cd spec && tla-sany "$(basename "$m")" >"$M/sany.log" 2>&1) || { cat "$M/sany.log"; exit 1; }
  grep -qiE 'Parse Error|Semantic errors|Could not parse' "$M/sany.log" && { cat "$M/sany.log"; exit 1; }
done
find "$M" -delete
echo setup ok
