#!/bin/bash
# Nothing has to be compiled ahead: every check drives /repo's working tree directly and builds the small
# LD_PRELOAD shim it needs itself. This only verifies that the interpreter can import the code under test.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import ratarmountcore.mountsource.factory, ratarmount.FuseMount" 
