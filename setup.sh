#!/bin/bash
# Nothing to compile: checks that the interpreter and the package import offline.
cd "$(dirname "$0")" || exit 1
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import pdfmajor.interpreter, PIL, yaml, mc.engine, mc.pdfgen"
