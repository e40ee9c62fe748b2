#!/bin/sh
# Nothing has to be built: checks that the specifications parse and that the code under test imports.
set -e
cd "$(dirname "$0")/spec"
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for m in *.tla; do
  java -cp $JARS tla2sany.SANY "$m" > "$T/out" 2>&1 || { cat "$T/out"; exit 1; }
  if grep -qE "Fatal errors|\*\*\* Errors" "$T/out"; then cat "$T/out"; exit 1; fi
done
cd "$T"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${GEORINEX_REPO:-/repo}/src /opt/venv/bin/python -W ignore -c "import georinex"
echo "specifications parsed: ok"
