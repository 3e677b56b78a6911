#!/bin/sh
# Nothing is built ahead: every check compiles the library from the working
# tree.  This only makes sure that the tools are there and the specification parses.
set -e
cd "$(dirname "$0")/../spec"
gcc --version >/dev/null
for m in Argus Trace; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla >/dev/null
done
mkdir -p ../evidence
