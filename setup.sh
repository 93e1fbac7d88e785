#!/bin/sh
# Nothing has to be compiled: this only verifies that the symbolic executor and the solvers work here.
cd "$(dirname "$0")" && PYTHONPATH=. exec /opt/venv/bin/python -m symx.selftest
