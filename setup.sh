#!/bin/bash
# Nothing needs building: the checks run Python drivers on /repo's working tree and
# TLC on spec/*.tla. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -c 'import sys; assert sys.version_info >= (3, 8)'
mkdir -p evidence
echo setup ok
