#!/bin/bash
# Nothing to build: specifications and drivers are interpreted. Check the tools and parse the specifications.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
python3 -c "import sys; sys.path.insert(0, '.'); import vlib.core"
echo ok
