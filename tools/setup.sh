#!/bin/bash
# Nothing is built: only make sure that what the checks need is there.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3, sys; sys.path.insert(0, "."); import sx.worker'
/opt/venv/bin/python -c 'import Crypto, zope.interface'
mkdir -p evidence
echo ok
