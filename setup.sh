#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the drivers by Python.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B lib/refcrypto.py
mkdir -p evidence
