#!/bin/bash
# Nothing is installed: checks that the tools are there and warms the build.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null || { echo "no java"; exit 1; }
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import sys; sys.path.insert(0, "lib"); sys.dont_write_bytecode = True; import vf; c = vf.Check("setup"); c.build(); c.cleanup()'
echo ready
