#!/opt/venv/bin/python
"""Nothing to build ahead of time: every check compiles its own harness.  This only confirms the tools are there."""
import sys, shutil
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy
assert shutil.which('clang++')
print('z3',z3.get_version_string(),'numpy',numpy.__version__)
