#!/bin/bash
# check that the tools are there and that the specification parses
set -u
cd "$(dirname "$0")" || exit 1
command -v java javac > /dev/null || exit 1
test -x /opt/venv/bin/python || exit 1
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$dir" spec/java/tlc2/overrides/DecOps.java || exit 1
cp spec/*.tla "$dir"
cd "$dir" || exit 1
for name in *.tla; do
    java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$name" > out.txt 2>&1 || { cat out.txt; exit 1; }
done
echo "setup: ok"
