"""nothing to build: check that the tools are there"""
import sys, os, subprocess
import z3
assert subprocess.run(['cvc5', '--version'], stdout=subprocess.DEVNULL).returncode == 0
assert os.path.exists('/opt/venv/bin/python')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
print('z3', z3.get_version_string(), 'cvc5 ok')
