"""nothing to build: check that the interpreter, torch and z3 are there, and compare the
assumed contracts of the torch operations with the installed torch"""
import os
import subprocess
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import torch, z3  # noqa
print("torch", torch.__version__, "z3", z3.get_version_string())
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([sys.executable, "-m", "vt.conform"], cwd=HERE, timeout=600))
