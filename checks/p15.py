"""P15: reproducibility and isolation from global randomness."""
import numpy as np
from hypothesis import strategies as st

from checks import fact, models
from pbt import gen
from pbt.core import Sub, require

RULE = ('Every estimator is fitted (and used to transform and predict) '
        'repeatedly in fresh objects: with the seed and with an equally seeded '
        'generator, under different states of the global generator, silently '
        'and verbosely; all results must agree and the global generator must '
        'not move. Different seeds must change the random initial guess. '
        'Non-trivial: two or more components.')
ASSUMPTIONS = ['Initial guesses are exposed by fits that take no step; seeds '
               'are compared for the random initialisation only.']


@st.composite
def cases(draw):
    c = draw(models.cases(inits=('random', 'furthest_sum', None)))
    if c['est'] in models.FACT:
        c['p']['fixed'] = []
    c['state'] = [draw(gen.seeds()), draw(gen.seeds())]
    c['advance'] = draw(st.integers(0, 5))
    c['verbose'] = draw(st.sampled_from([1, 2, True]))
    c['horizon'] = draw(st.integers(0, 2))
    return c


def state():
    s = np.random.get_state()
    return s[1].tobytes() + repr(s[2:]).encode()


def everything(c, random_state, verbose=0):
    """All results obtained from a fresh object."""
    model = models.make(c, random_state, verbose)
    x, kw = models.fit_arguments(c)
    out = {'fit': models.snapshot(model.fit_transform(x, **kw)),
           'par': models.snapshot(models.fitted(c, model))}
    if hasattr(model, 'n_iter_'):
        out['n_iter'] = int(model.n_iter_)
    y, kw = models.transform_arguments(c)
    if c['est'] in fact.MTD_LIKE or c['est'] == 'kmeans-crom':
        out['predict'] = model.predict(y.copy(), horizon=c['horizon']).copy()
    out['transform'] = model.transform(y, **kw).copy()
    return out


def check_repeat(case, ctx):
    seed, est = case['seed'], case['est']
    ctx.label(est, 'k=%d' % case['k'])

    def attempt(label, global_seed, rs, verbose=0, advance=0):
        np.random.seed(global_seed)
        np.random.uniform(size=advance)
        before = state()
        result = everything(case, rs, verbose)
        require(state() == before, '%s advanced the global generator '
                'although a random state was given (%s)', est, label)
        return result

    def agree(first, other, label, fit_only=False):
        for key in first:
            if fit_only and key in ('transform', 'predict'):
                continue
            require(models.close(other[key], first[key], 1e-7),
                    'repeating a fit of %s with %s gives a different result '
                    '(%s)', est, label, key)
            if not models.same(other[key], first[key]):
                ctx.label('equal up to rounding')

    s1, s2 = case['state']
    first = attempt('seed', s1, seed)
    again = attempt('same seed', s1, seed)
    for label, other in (
            ('the same call', again),
            ('another state of the global generator',
             attempt('seed', s2, seed, advance=case['advance'])),
            ('an equally seeded generator',
             attempt('generator', s1, np.random.RandomState(seed))),
            ('verbose output',
             attempt('verbose', s1, seed, verbose=case['verbose']))):
        agree(first, other, label,
              label == 'an equally seeded generator')
    # A generator advances from call to call, a seed need not.
    rng = [np.random.RandomState(seed) for _ in range(2)]
    agree(attempt('generator', s1, rng[0]),
          attempt('generator', s2, rng[1], verbose=case['verbose'],
                  advance=case['advance']), 'two equally seeded generators')
    require(rng[0].get_state()[1].tolist() == rng[1].get_state()[1].tolist(),
            'equally seeded generators are advanced differently')
    ctx.mark(case['k'] > 1)


@st.composite
def seed_cases(draw):
    est = draw(st.sampled_from(models.FACT + models.FEMBV))
    c = draw(models.cases(ests=(est,), inits=('random',), iterations=(1, 1)))
    if est in models.FACT:
        p = c['p']
        p['fixed'] = []
        p['X'] = gen.draw_normal(draw, p['X'].shape)
        c['X'] = p['X']
        for name in ('dictionary', 'weights', 'order_weights',
                     'transition_matrices'):
            p.pop(name, None)
        p['gamma'] = 1e30
    else:
        c['custom'] = False
    c['seeds'] = [draw(gen.seeds()), draw(gen.seeds())]
    c['global'] = draw(gen.seeds())
    return c


def start(c, seed):
    np.random.seed(c['global'])
    model = models.make(c, seed)
    x, kw = models.fit_arguments(c)
    if c['est'] in models.FEMBV:
        kw.update(update_parameters=False, update_weights=False)
    W = model.fit_transform(x, **kw).copy()
    out = {'weights': W}
    if c['est'] in models.FACT:
        out['dictionary'] = model.dictionary_.copy()
        if c['est'] in fact.MTD_LIKE:
            out['transition matrices'] = model.transition_matrices.copy()
            if len(c['p']['lags']) > 1:
                out['order weights'] = model.order_weights.copy()
    return out


def check_seeds(case, ctx):
    a, b = case['seeds']
    if a == b:
        b = a + 1
    if case['k'] == 1:
        ctx.label('one component')
        return
    first, second, third = start(case, a), start(case, b), start(case, a)
    for name in first:
        require(models.close(first[name], third[name], 1e-7),
                'the initial %s differ between equal seeds', name)
        require(not models.close(first[name], second[name], 1e-7),
                'the initial %s do not depend on the seed', name)
    ctx.label(case['est'])
    ctx.mark()


SUBS = [Sub('repeat', lambda tier: cases(), check_repeat, 1800, 30000),
        Sub('seeds', lambda tier: seed_cases(), check_seeds, 600, 12000)]
