#!/bin/sh
# the tools the checks need are present, and the verifier proves and refutes what it must
set -e
cd "$(dirname "$0")/.."
exec /opt/veriftools/pyvenv/bin/python3 tools/selftest.py
