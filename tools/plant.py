#!/usr/bin/env python3
"""Build and confirm planted bugs (development aid; no check uses it).

plant.py SPEC.py [ID...]   SPEC.py defines BUGS, a list of dicts with keys
id, property, file, edits [(old, new)], needs, breaks, demo (Python source).
For each: make a scratch copy of /repo, apply the edits, run the tests, run the
demonstration on both trees, store seeded/<id>/, and run the property's check.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# Exit 0 when the guarantee holds, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def original_lines(path, lines):
    """Which of the changed (removed) lines are not in the base commit."""
    out = sh(['git', 'blame', '-s', '--', path], '/repo').stdout.splitlines()
    base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'],
              '/repo').stdout.strip()[:7]
    return [n for n in lines if not out[n - 1].lstrip('^').startswith(base)]


def main():
    specs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    for bug in specs:
        if only and bug['id'] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='plant-')
        repo = os.path.join(tmp, 'repo')
        try:
            sh(['git', 'clone', '-q', '/repo', repo], '/')
            for old, new in bug['edits']:
                f = bug['file']
                if isinstance(old, tuple):
                    f, old = old
                path = os.path.join(repo, 'src/reor', f)
                with open(path) as h:
                    text = h.read()
                assert text.count(old) == 1, \
                    (bug['id'], text.count(old), old)
                with open(path, 'w') as h:
                    h.write(text.replace(old, new))
            diff = sh(['git', 'diff'], repo).stdout
            cur, late = None, []
            num = 0
            for line in diff.splitlines():
                if line.startswith('--- a/'):
                    cur = line[6:]
                elif line.startswith('@@'):
                    num = int(re.match(r'@@ -(\d+)', line).group(1))
                elif line.startswith('-'):
                    late += [(cur, n) for n in original_lines(cur, [num])]
                    num += 1
                elif line.startswith(' '):
                    num += 1
            tests = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '-x', 'tests'], repo,
                       {'PYTHONPATH': os.path.join(repo, 'src')})
            tail = tests.stdout.strip().splitlines()[-1]
            ok_tests = '75 passed' in tail and 'failed' not in tail
            d = os.path.join(HERE, 'seeded', bug['id'])
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'patch.diff'), 'w') as h:
                h.write(diff)
            with open(os.path.join(d, 'demo.py'), 'w') as h:
                h.write(bug['demo'].lstrip('\n'))
            with open(os.path.join(d, 'demo.sh'), 'w') as h:
                h.write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            with open(os.path.join(d, 'meta.json'), 'w') as h:
                json.dump({'property': bug['property'], 'needs': bug['needs'],
                           'what_it_breaks': bug['breaks']}, h, indent=1)
                h.write('\n')
            demo = ['bash', os.path.join(d, 'demo.sh')]
            clean, dirty = sh(demo, '/repo'), sh(demo, repo)
            check = sh([PY, os.path.join(HERE, 'run.py'), bug['property']],
                       HERE, {'REOR_SRC': os.path.join(repo, 'src'),
                              'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            print('%-28s %s tests=%s demo clean=%d dirty=%d check=%d %s' % (
                bug['id'], bug['property'],
                'ok' if ok_tests else 'FAIL(%s)' % tail, clean.returncode,
                dirty.returncode, check.returncode,
                'LATE LINES %r' % late if late else ''))
            if clean.returncode:
                print(clean.stdout[-1500:])
            if dirty.returncode == 0:
                print('   demo does not fail')
            lines = check.stdout.strip().splitlines()
            print('     ' + (lines[-2][:160] if len(lines) > 1 else
                             check.stdout[-500:]))
            if not (ok_tests and clean.returncode == 0 and
                    dirty.returncode == 1):
                shutil.rmtree(d)
                print('   NOT KEPT')
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
