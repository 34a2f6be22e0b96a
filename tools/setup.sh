#!/bin/bash
# Nothing has to be built: the specifications are checked by the installed TLC and the
# harness imports /repo/src. Make sure both are there and the specifications parse.
set -e
cd "$(dirname "$0")/../spec"
java -version >/dev/null 2>&1
for m in *.tla; do
  out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" 2>&1) || { echo "$out"; exit 1; }
done
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -c "import psrpcore"
mkdir -p ../evidence
