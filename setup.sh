#!/bin/bash
# Nothing needs building: specifications are read by TLC, and the code under test is imported from /repo's working tree.
# Make sure that the tools are there, and that the specifications parse.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import ply, html5lib'
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd spec
for m in *.tla; do
  java -Djava.io.tmpdir="$t" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }
  if grep -q -e '\*\*\* Errors' -e 'Fatal errors' "$t/log"; then cat "$t/log"; exit 1; fi
done
echo ok
