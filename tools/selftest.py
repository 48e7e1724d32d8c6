#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; check that the interpreter, the code
under test, and Hypothesis can be loaded, and that cases survive encoding."""
import os
import sys

HERE = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from pbt import boot  # noqa: E402

if os.environ.get('REOR_PBT_CHILD') != '1':
    os.execve(boot.PYTHON, [boot.PYTHON, '-s', '-W', 'ignore',
                            os.path.abspath(__file__)],
              boot.clean_env(1, 'quick'))
boot.install()
import importlib  # noqa: E402
import json  # noqa: E402
import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
import scipy, sklearn, cvxpy  # noqa: E402,F401,E401
from pbt import core  # noqa: E402

case = {'a': np.array([[0.1, -2.5]]), 'b': (1, [2.0, None, 'x']), 'c': True,
        'd': np.zeros((0, 3))}
back = core.decode(json.loads(json.dumps(core.encode(case))))
assert back['a'].tobytes() == case['a'].tobytes() and back['b'] == case['b']
assert back['d'].shape == (0, 3) and back['c'] is True
with open(os.path.join(HERE, 'MANIFEST.json')) as f:
    manifest = json.load(f)
for c in manifest['checks']:
    assert importlib.import_module('checks.' + c['property'].lower()).SUBS
print('ok: hypothesis %s, numpy %s, %d checks' %
      (hypothesis.__version__, np.__version__, len(manifest['checks'])))
