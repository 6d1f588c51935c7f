#!/usr/bin/env python3
"""Offline set-up: nothing to build; verifies that interpreter, git and the code under test are usable."""
import subprocess
import sys
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=here, PYTHONDONTWRITEBYTECODE="1")
r = subprocess.run(["/opt/venv/bin/python", "-c", "from dst import boot; import edk2toollib; print('ok')"], env=env, cwd=here)
sys.exit(r.returncode)
