"""P31: copies of estimators are equivalent and independent."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from checks import models, p16
from pbt import gen
from pbt.core import Sub, require

RULE = ('An estimator is copied (deep copy, pickle, or a copy of a copy) at a '
        'generated point of a sequence of calls, before or after fitting; the '
        'sequence goes on with calls on the original and on the copy in a '
        'generated order. Every result and every fitted parameter must be '
        'what an estimator of the same history that was never copied returns, '
        'and calls on one must leave the other alone, bitwise. Non-trivial: '
        'both are used after the copy was taken.')
ASSUMPTIONS = ['Results of equal histories agree to 1e-6 (see P15); the '
               'random state is a seed or a generator of the estimator, not '
               'the global generator.']

COPIES = {
    'deepcopy': copy.deepcopy,
    'pickle': lambda m: pickle.loads(pickle.dumps(m)),
    'old pickle': lambda m: pickle.loads(pickle.dumps(m, protocol=2)),
    'deepcopy twice': lambda m: copy.deepcopy(copy.deepcopy(m)),
    'pickled deepcopy': lambda m: pickle.loads(pickle.dumps(
        copy.deepcopy(m))),
    'with others': lambda m: copy.deepcopy({'a': [m, np.ones(2)],
                                            'b': m})['b']}


@st.composite
def cases(draw):
    c = draw(p16.cases())
    c['how'] = draw(st.sampled_from(sorted(COPIES)))
    c['when'] = draw(st.integers(0, len(c['ops'])))
    c['targets'] = [draw(st.sampled_from(['original', 'copy', 'both']))
                    for _ in c['ops']]
    c['unfitted'] = draw(st.integers(0, 4)) == 4
    c['generator'] = draw(st.booleans())
    c['drop'] = draw(st.integers(0, 5)) == 5
    return c


def call(c, model, op, on, number, layout):
    if op == 'inverse_transform':
        x, kw = c['W'], {}
    elif op.startswith('fit'):
        x, kw = p16.fit_arguments(c, on)
    else:
        x, kw = models.transform_arguments(c, on)
        if op == 'predict':
            kw = {'horizon': number}
    r = getattr(model, op)(gen.layout(x, layout), **kw)
    return models.snapshot(r) if isinstance(r, np.ndarray) else None


def state(c, model):
    out = {k: models.snapshot(getattr(model, k, None))
           for k in models.FITTED[c['est']]}
    out['n_iter_'] = getattr(model, 'n_iter_', None)
    return out


def check(case, ctx):
    seed = case['seed']

    def new():
        return models.make(case, np.random.RandomState(seed)
                           if case['generator'] else seed)

    # The schedule: (target, call) in order, the copy taken before `when`.
    first = ['fit', case['start'], 0, case['layout']]
    schedule = [('original', first)] if not case['unfitted'] else []
    when = case['when'] + len(schedule)
    if case['unfitted']:
        when = 0
        schedule += [('both', first)]
    schedule += list(zip(case['targets'], case['ops']))
    names = {'original': ('original',), 'copy': ('copy',),
             'both': ('original', 'copy')}
    steps = []
    for i, (target, op) in enumerate(schedule):
        steps += [(name, op) for name in
                  (names[target] if i >= when else ('original',))]
        if i + 1 == when:
            before = len(steps)
    if when == 0:
        before = 0

    def isolated(name):
        """Results of the history of one of the two, without copies."""
        m, out = new(), []
        for i, (who, op) in enumerate(steps):
            if who == name or i < before:
                r = call(case, m, *op)
                out.append((r, state(case, m)))
        return out

    expected = {'original': isolated('original'), 'copy': isolated('copy')}
    objects = {'original': new()}
    done = {'original': 0, 'copy': 0}
    used = set()
    for i, (who, op) in enumerate(steps):
        if i == before:
            objects['copy'] = COPIES[case['how']](objects['original'])
            done['copy'] = done['original']
            a, b = (state(case, objects[k]) for k in ('original', 'copy'))
            for k in a:
                require(models.same(a[k], b[k]), 'the copy (%s) has another '
                        '%s', case['how'], k)
            if case['drop'] and all(w == 'copy' for w, _ in steps[i:]):
                del objects['original']
        if i >= before:
            used.add(who)
        held = {k: (m, state(case, m)) for k, m in objects.items()
                if k != who}
        text = '%s of the %s (%s taken after %d calls)' % (
            op[0], who, case['how'], before)
        r = call(case, objects[who], *op)
        now = state(case, objects[who])
        want, then = expected[who][done[who]]
        done[who] += 1
        if want is not None:
            require(models.close(r, want, 1e-6), '%s returns something else '
                    'than without copying', text)
        for k in now:
            require(models.close(now[k], then[k], 1e-6), '%s leads to '
                    'another %s than without copying', text, k)
        for other, (m, old) in held.items():
            now = state(case, m)
            for k in old:
                require(models.same(now[k], old[k]), '%s changes %s of the '
                        '%s', text, k, other)
    ctx.label(case['est'], case['how'],
              'unfitted' if case['unfitted'] else 'fitted')
    ctx.mark(used == {'original', 'copy'})


SUBS = [Sub('copies', lambda tier: cases(), check, 2000, 40000)]
