#!/bin/bash
# nothing to build: verifies that the interpreter, z3 and /repo's compiler load,
# and that the symbolic UPLC machine agrees with the real evaluator
cd "$(dirname "$0")/.." || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "
import sys; sys.path.insert(0,'.')
import symx.env, z3, opshin.builder
print('setup ok', z3.get_version_string(), opshin.__file__)" || exit 1
exec /opt/venv/bin/python -m symx.selftest 20
