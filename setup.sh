#!/bin/bash
# Offline sanity check of the toolchain; nothing has to be compiled.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
for f in spec/*.tla; do test -s "$f"; done
echo setup ok
