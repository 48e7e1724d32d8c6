"""Process set-up: a clean interpreter, the code under test, and Hypothesis.

The code under test runs in /opt/venv/bin/python, the interpreter its own test
suite uses.  Hypothesis is installed in a different virtual environment; it is
made importable here through a finder restricted to Hypothesis and its one
dependency, so that numpy, scipy etc. always come from /opt/venv.
"""
import importlib.machinery
import importlib.util
import os
import sys
import tempfile

PYTHON = '/opt/venv/bin/python'
REPO_SRC = os.environ.get('REOR_SRC', '/repo/src')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ALLOWED = ('hypothesis', 'sortedcontainers', '_hypothesis_globals',
           '_hypothesis_pytestplugin', '_hypothesis_ftz_detector', 'attr',
           'attrs')


def clean_env(seed, tier):
    env = {k: os.environ[k] for k in ('HOME', 'LANG', 'TMPDIR')
           if k in os.environ}
    env.update({
        'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONNOUSERSITE': '1', 'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'MPLBACKEND': 'Agg', 'REOR_PBT_CHILD': '1',
        'VERIF_SEED': str(seed), 'VERIF_TIER': tier,
        'REOR_SRC': REPO_SRC})
    # Bytecode of an earlier state of the code must never be used: point the
    # cache at a directory that does not exist.
    env['PYTHONPYCACHEPREFIX'] = os.path.join(
        tempfile.gettempdir(), 'reor-pbt-no-bytecode-%d' % os.getpid())
    return env


class _RestrictedFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        top = name.split('.')[0]
        if top not in ALLOWED or '.' in name:
            return None
        return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])


def install():
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_RestrictedFinder)
        import hypothesis  # noqa: F401
