"""Runner for the generated-input checks.

A check module exposes ``SUBS`` (a list of ``Sub``), ``RULE`` and optionally
``ASSUMPTIONS``.  Every sub-check is a Hypothesis strategy producing a plain
data case (a dict of numbers, strings, lists and numpy arrays) and a function
``check(case, ctx)`` deciding it against an oracle.  Cases are distributed over
worker processes; a failing case is shrunk by Hypothesis and saved as a JSON
file which ``run.py PID --replay FILE`` re-executes without Hypothesis.
"""
import collections
import hashlib
import importlib
import json
import mmap
import os
import pickle
import re
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, 'known-findings.txt')
HANG_CPU_SECONDS = 90.0
SLOT = 1 << 20


class Violation(Exception):
    """The property does not hold on the current case."""


def require(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


def get_array(x, shape, what, finite=True):
    """Validate a value returned by the code under test as a float array."""
    require(isinstance(x, np.ndarray), '%s is not an array but %r',
            what, type(x).__name__)
    require(x.shape == tuple(shape), '%s has shape %r instead of %r',
            what, x.shape, tuple(shape))
    require(x.dtype.kind in 'fiu', '%s has dtype %s', what, x.dtype)
    if finite:
        require(bool(np.isfinite(x).all()), '%s has non-finite entries', what)
    return np.array(x, dtype='f8')


def get_number(x, what, finite=True):
    require(isinstance(x, (int, float, np.number)), '%s is not a number: %r',
            what, type(x).__name__)
    x = float(x)
    if finite:
        require(np.isfinite(x), '%s is %r', what, x)
    return x


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None,
                 examples=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else 20 * quick
        self.examples = list(examples)


class Ctx:
    """Per-case recorder: labels, non-triviality, known findings."""

    def __init__(self, known):
        self.labels = []
        self.nontrivial = False
        self.known_hits = []
        self._known = known

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    def known(self, key, message, *args):
        """A violation that may be a listed, unrepaired finding."""
        if key in self._known:
            self.known_hits.append(key)
        else:
            raise Violation(message % args if args else message)


# ------------------------------------------------------------- encoding

def encode(x):
    if isinstance(x, np.ndarray):
        return {'__nd__': [v for v in x.ravel().tolist()],
                'shape': list(x.shape), 'dtype': str(x.dtype)}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {k: encode(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return {'__tuple__': [encode(v) for v in x]}
    if isinstance(x, list):
        return [encode(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise TypeError('cannot encode %r' % (x,))


def decode(x):
    if isinstance(x, dict):
        if '__nd__' in x:
            return np.array(x['__nd__'], dtype=x['dtype']).reshape(x['shape'])
        if '__tuple__' in x:
            return tuple(decode(v) for v in x['__tuple__'])
        return {k: decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


def brief(x, limit=40):
    """Abbreviated form of a case for the evidence file."""
    if isinstance(x, np.ndarray):
        y = np.round(x, 6).tolist() if x.dtype.kind == 'f' else x.tolist()
        if x.size > limit:
            flat = np.ravel(y).tolist()[:8]
            return {'array': list(x.shape), 'first': flat}
        return y
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [brief(v) for v in x[:limit]]
    if isinstance(x, np.generic):
        return x.item()
    return x


# ------------------------------------------------------- known findings

def read_known(pid):
    """Open findings of a property: key -> description."""
    known = collections.OrderedDict()
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)$',
                             line.strip())
                if m and m.group(1) == pid:
                    known[m.group(2)] = m.group(3)
    return known


# --------------------------------------------------------------- running

def from_code_under_test(tb):
    from pbt.boot import REPO_SRC
    root = os.path.join(os.path.realpath(REPO_SRC), 'reor')
    for frame in traceback.extract_tb(tb):
        if os.path.realpath(frame.filename).startswith(root):
            return True
    return False


CASE_HOOKS = []     # called before every case


def run_case(sub, case, known):
    """Execute one case; returns its Ctx or raises Violation."""
    ctx = Ctx(known)
    for hook in CASE_HOOKS:
        hook()
    np.random.seed(20240229)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            sub.check(case, ctx)
        except Violation:
            raise
        except Exception as exc:
            if from_code_under_test(exc.__traceback__):
                last = traceback.extract_tb(exc.__traceback__)[-1]
                raise Violation(
                    'unexpected %s: %s (at %s:%d)' % (
                        type(exc).__name__, str(exc)[:300],
                        os.path.basename(last.filename), last.lineno)) from exc
            if isinstance(exc, (AttributeError, TypeError)):
                # A result lacks a documented attribute or has another type.
                raise Violation('the results could not be examined: %s: %s' % (
                    type(exc).__name__, str(exc)[:300])) from exc
            raise
    return ctx


def derive_seed(*parts):
    h = hashlib.blake2b(':'.join(str(p) for p in parts).encode(),
                        digest_size=8).digest()
    return int.from_bytes(h, 'big')


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.digests = set()
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.known_hits = collections.Counter()

    def add(self, digest, case, ctx):
        self.evaluations += 1
        self.digests.add(digest)
        self.labels.update(set(ctx.labels))
        self.known_hits.update(ctx.known_hits)
        if ctx.nontrivial and digest not in self.nontrivial:
            self.nontrivial.add(digest)
            if len(self.samples) < 1:
                self.samples.append(brief(case))


def run_shard(pid, sub, shard, n_examples, seed, tier, slot):
    """Run part of a sub-check in this (worker) process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 30

    known = read_known(pid)
    stats = Stats()
    state = {'fail': None, 'message': None, 'counting': True, 'last': None}

    def run(case):
        blob = pickle.dumps(case, protocol=4)
        slot.publish(blob)
        state['last'] = case
        digest = hashlib.blake2b(blob, digest_size=8).digest()
        try:
            ctx = run_case(sub, case, known)
        except Violation as exc:
            state['fail'] = case
            state['message'] = str(exc)
            state['counting'] = False
            raise
        if state['counting']:
            stats.add(digest, case, ctx)

    try:
        if shard == 0:
            for case in sub.examples + regression_cases(pid, sub.name):
                run(case)

        if n_examples > 0:
            @hypothesis.seed(derive_seed(seed, pid, sub.name, shard))
            @settings(max_examples=n_examples, database=None, deadline=None,
                      phases=(Phase.generate, Phase.shrink),
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck))
            @given(sub.strategy(tier))
            def test(case):
                run(case)

            test()
    except BaseException as exc:  # noqa: B902
        slot.done()
        if state['fail'] is not None:
            return {'violation': state['message'], 'case': state['fail'],
                    'stats': stats}
        return {'error': traceback.format_exc(), 'stats': stats,
                'case': state['last']}
    slot.done()
    return {'stats': stats}


class Slot:
    """Shared memory through which a worker publishes its current case."""

    def __init__(self):
        self.map = mmap.mmap(-1, SLOT)

    def publish(self, blob):
        count = struct.unpack('<Q', self.map[:8])[0]
        if len(blob) + 24 <= SLOT:
            self.map[16:24] = struct.pack('<Q', len(blob))
            self.map[24:24 + len(blob)] = blob
        else:
            self.map[16:24] = struct.pack('<Q', 0)
        self.map[:8] = struct.pack('<Q', count + 1)

    def done(self):
        count = struct.unpack('<Q', self.map[:8])[0]
        self.map[:8] = struct.pack('<Q', count + 1)

    def count(self):
        return struct.unpack('<Q', self.map[:8])[0]

    def case(self):
        n = struct.unpack('<Q', self.map[16:24])[0]
        return pickle.loads(self.map[24:24 + n]) if n else None


def cpu_seconds(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            fields = f.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def save_replay(pid, sub, case, message, seed, tier):
    directory = os.path.join(VERIF, 'replays')
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, '%s-%s.json' % (pid, sub))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'sub': sub, 'message': message,
                   'seed': seed, 'tier': tier, 'case': encode(case)}, f,
                  indent=1)
        f.write('\n')
    return path


def regression_cases(pid, sub):
    """Minimal cases of repaired defects and of listed findings."""
    directory = os.path.join(VERIF, 'regress')
    cases = []
    if os.path.isdir(directory):
        for name in sorted(os.listdir(directory)):
            if re.match(r'%s-.*\.json$' % pid, name):
                with open(os.path.join(directory, name)) as f:
                    data = json.load(f)
                if data['sub'] == sub:
                    cases.append(decode(data['case']))
    return cases


def replay(pid, path):
    module = load(pid)
    with open(path) as f:
        data = json.load(f)
    if 'case' not in data:
        print('no case recorded in %s' % path)
        return 2
    sub = {s.name: s for s in module.SUBS}[data['sub']]
    case = decode(data['case'])
    try:
        run_case(sub, case, read_known(pid))
    except Violation as exc:
        print('  ' + str(exc))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('property %s holds on %s' % (pid, path))
    return 0


def main(pid, tier, seed, workers=None, only=None, scale=1.0):
    start = time.time()
    module = load(pid)
    workers = workers or max(1, min(8, os.cpu_count() or 1))
    subs = [s for s in module.SUBS if only is None or s.name in only]

    tasks = []
    for sub in subs:
        total = sub.quick if tier == 'quick' else sub.thorough
        total = max(1, int(total * scale))
        shards = max(1, min(workers, total // 10))
        if tier == 'thorough':
            shards = max(shards, min(4 * workers, total // 200))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            tasks.append((sub, k, n))
    # Long tasks first: those with most examples.
    tasks.sort(key=lambda t: (t[1], -t[2]))

    stats = {s.name: Stats() for s in subs}
    running = {}
    failure = None
    errors = []
    pending = collections.deque(tasks)
    tmpdir = tempfile.mkdtemp(prefix='reor-pbt-')
    serial = 0

    def launch(task):
        nonlocal serial
        sub, shard, n = task
        serial += 1
        out = os.path.join(tmpdir, '%d.pkl' % serial)
        slot = Slot()
        sys.stdout.flush()
        sys.stderr.flush()
        child = os.fork()
        if child == 0:
            status = 3
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                result = run_shard(pid, sub, shard, n, seed, tier, slot)
                with open(out + '.tmp', 'wb') as f:
                    pickle.dump(result, f)
                os.rename(out + '.tmp', out)
                status = 0
            except BaseException:  # noqa: B902
                traceback.print_exc()
            finally:
                os._exit(status)
        running[child] = {'task': task, 'out': out, 'slot': slot,
                          'count': -1, 'cpu': 0.0}

    def merge(sub, s):
        t = stats[sub.name]
        t.evaluations += s.evaluations
        t.digests |= s.digests
        t.nontrivial |= s.nontrivial
        t.labels.update(s.labels)
        t.known_hits.update(s.known_hits)
        if len(t.samples) < 2:
            t.samples.extend(s.samples[:2 - len(t.samples)])

    last_poll = time.time()
    while (pending or running) and failure is None and not errors:
        while pending and len(running) < workers:
            launch(pending.popleft())
        child, status = os.waitpid(-1, os.WNOHANG)
        if child == 0:
            time.sleep(0.01)
            if time.time() - last_poll > 1.0:
                last_poll = time.time()
                for p, r in running.items():
                    cpu, count = cpu_seconds(p), r['slot'].count()
                    if count != r['count']:
                        r['count'], r['cpu'] = count, cpu
                    elif cpu - r['cpu'] > HANG_CPU_SECONDS \
                            and count > 0:
                        case = r['slot'].case()
                        failure = (r['task'][0], case,
                                   'no result after %d CPU seconds' %
                                   HANG_CPU_SECONDS)
                        break
            continue
        if child not in running:
            continue
        r = running.pop(child)
        sub = r['task'][0]
        if not os.path.exists(r['out']):
            if os.WIFSIGNALED(status) and r['slot'].count() > 0:
                failure = (sub, r['slot'].case(),
                           'the process died with signal %d' %
                           os.WTERMSIG(status))
            else:
                errors.append('worker for %s died (status %r)' %
                              (sub.name, status))
            continue
        with open(r['out'], 'rb') as f:
            result = pickle.load(f)
        os.unlink(r['out'])
        merge(sub, result['stats'])
        if 'violation' in result:
            failure = (sub, result['case'], result['violation'])
        elif 'error' in result:
            errors.append('sub-check %s:\n%s' % (sub.name, result['error']))

    for p in list(running):
        try:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
        except OSError:
            pass
    for name in os.listdir(tmpdir):
        os.unlink(os.path.join(tmpdir, name))
    os.rmdir(tmpdir)

    evaluations = sum(s.evaluations for s in stats.values())
    nontrivial = sum(len(s.nontrivial) for s in stats.values())
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': module.RULE,
            'samples': [{'sub': n, 'case': c} for n, s in stats.items()
                        for c in s.samples],
            'sub_checks': {n: {'evaluations': s.evaluations,
                               'distinct': len(s.digests),
                               'distinct_nontrivial': len(s.nontrivial),
                               'labels': dict(sorted(s.labels.items()))}
                           for n, s in stats.items()},
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - start, 2),
        'violations': 0 if failure is None else 1,
    }
    if only is None and scale == 1.0:
        directory = os.path.join(VERIF, 'evidence')
        os.makedirs(directory, exist_ok=True)
        with open(os.path.join(directory, pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')

    if failure is not None:
        sub, case, message = failure
        path = save_replay(pid, sub.name, case, message, seed, tier)
        print('%s/%s: %s' % (pid, sub.name, message))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1

    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        return 2

    hits = collections.Counter()
    for s in stats.values():
        hits.update(s.known_hits)
    for key, what in read_known(pid).items():
        if hits[key]:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))

    if nontrivial < 2:
        print('no non-trivial cases were generated', file=sys.stderr)
        return 2
    print('%s: %d cases (%d distinct non-trivial) in %.1f s, property held' %
          (pid, evaluations, nontrivial, time.time() - start))
    return 0
