#!/bin/bash
# Nothing to build: checks that the tools the checks use are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import svgpy'
python3 -c 'import harness.registry'
