#!/bin/sh
# Nothing to build: the checks import pymantic from /repo/src and run TLC from its jar.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c "import sys; sys.path.insert(0, 'lib'); import vf, pymantic.primitives"
test -f /opt/veriftools/tla/tla2tools.jar
