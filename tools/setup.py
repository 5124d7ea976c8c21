"""Nothing is compiled ahead of a check; this only confirms that the tools are there."""
import os, subprocess, sys
import z3, numpy
assert os.path.exists('/opt/venv/bin/python')
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('z3', z3.get_version_string())
