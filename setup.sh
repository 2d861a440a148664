#!/bin/bash
# Nothing to build: the framework is Python run from the committed files. Checks the interpreter is there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '.'); from dst import env; import ocfl; print('ok', ocfl.__file__)"
