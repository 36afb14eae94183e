"""Developer's tool: run tests of the tree against the lowered ("shadow") pywr with concrete values and the real libglpk.

  cd COPY_OF/tests && PYTHONPATH=/repo /opt/venv/bin/python /verif/tools/shadowtest.py -q -p no:cacheprovider [tests]
"""
import os
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from engine import loader, lpstub
loader.install(os.environ.get("VERIF_REPO", "/repo"), lpstub.STUBS)
import pytest
sys.exit(pytest.main(sys.argv[1:]))
