#!/bin/bash
# nothing to build: the engine is Python; check that the interpreter, the code under test and z3 are there
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0,'.')
from vf import engine, run
engine.z3(); engine.real('ols'); print(len(run.load_contracts()), 'contracts')"
