#!/opt/venv/bin/python
"""Nothing is built ahead of a check; this verifies that the tools the checks use are there."""
import subprocess
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy
for c in (['clang-18', '--version'], ['cmake', '--version'], ['gcc', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
