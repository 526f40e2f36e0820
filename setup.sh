#!/bin/bash
# nothing to build: the verifier is Python; check that its parts are present
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c '
import sys; sys.path.insert(0, ".")
import pyvc.contract, pyvc.prove
print("z3", pyvc.prove.z3.get_version_string())'
