#!/bin/bash
# Nothing to build ahead of time: every check regenerates its encoding from /repo on each run.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
test -x check && /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, Cython; print('z3', z3.get_version_string(), 'cython', Cython.__version__)"
