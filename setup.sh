#!/bin/sh
# Nothing to build: the specification is interpreted and the library is imported from
# /repo's working tree.  Check that the tools are there and the specification parses.
set -e
cd "$(dirname "$0")/spec"
/opt/venv/bin/python -c "import lxml, pygeoif, arrow"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
OUT="$T/schema.json" java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -metadir "$T/m" -noGenerateSpecTE -config Export.cfg Export.tla > "$T/log" || { cat "$T/log"; exit 1; }
cmp "$T/schema.json" gen/schema.json
