"""P28: fits with every factor free reach a stationary point."""
import numpy as np
from hypothesis import strategies as st

from checks import fact, p09
from checks.p27 import excess as scaled_excess
from pbt.core import Sub, require

RULE = ('Order-one data, every method, every initialisation, all factors '
        'free (or, for MTD, any subset of at least two). Two budgets give the '
        'decrease per iteration; where it has stalled, no factor may be '
        'improvable with the others kept: weights, archetypes and MTD '
        'parameters are judged by their Frank-Wolfe gaps, archetype scales by '
        'clipped parabolas, GPNH and MTD dictionaries by the exact minimum. '
        'Non-trivial: two or more components and a cost above zero.')
ASSUMPTIONS = ['A descent step with a gap g in some factor lowers the cost '
               'by a multiple of g^2 / scale, so the gap may be at most '
               '30 sqrt(scale (decrease per iteration + 1e-12 scale)), or '
               '1e-4 of the scale. Cases with larger gaps are given 1500, '
               'then 12000 iterations before they count.']

BUDGETS = (300, 1500, 12000)


@st.composite
def cases(draw, methods):
    p = draw(fact.problems(
        methods=methods, n=(3, 10), d=(1, 4), k=(2, 4), fixed=False,
        max_lag=2, big=0,
        kinds=('normal', 'normal', 'generic', 'grid', 'dup', 'convex')))
    if p['method'] in ('gpnh', 'mtd'):
        p['epsilon_states'] = draw(st.sampled_from([0.0, 0.01, 0.1, 1.0]))
    if p['method'] == 'mtd':
        p['epsilon_weights'] = draw(st.sampled_from([0.0, 0.1, 1.0]))
        free = draw(st.sampled_from([None, None, 'parameters', 'weights',
                                     'dictionary']))
        if free and p['init'] == 'custom':
            p['fixed'] = [free]
    return {'p': p}


def gaps(p, f):
    """Possible improvement for every free factor."""
    omega = getattr(f, 'order_weights', None)
    T = getattr(f, 'transitions', None)
    out = {}
    if 'weights' not in p['fixed']:
        out['weights'] = fact.simplex_gap(
            fact.weights_gradient(p, f.W, f.D, omega, T), f.W, 1)
    if 'dictionary' not in p['fixed']:
        if p['method'] in fact.AA_LIKE:
            K = p['X'].dot(p['X'].T)
            out['scales'], out['dictionary'], _ = scaled_excess(
                K, f.W, f.D, p.get('delta', 0.0))
        else:
            out['dictionary'] = p09.excess(dict(p, weights=f.W), f.D)
    if p['method'] == 'mtd' and 'parameters' not in p['fixed'] and p['k'] > 1:
        go, gt = fact.parameters_gradient(f.W, p['lags'], omega, T)
        out['parameters'] = p['epsilon_weights'] * (
            fact.simplex_gap(go[None], omega[None], 1) +
            fact.simplex_gap(gt, T, 1))
    return out


def scale_of(p, f):
    X = p['X']
    if p['method'] in fact.AA_LIKE:
        return 1e-6 + float((X * X).sum()) * (1 + p.get('delta', 0.0)) ** 2
    return 1e-6 + float((X * X).mean() + (f.D * f.D).mean()) + \
        p.get('epsilon_weights', 0.0)


def check(case, ctx):
    p = case['p']
    for budget in BUDGETS:
        a = fact.run(p, max_iterations=budget // 2)
        b = fact.run(p, max_iterations=budget)
        scale = scale_of(p, b)
        rate = max(0.0, a.cost - b.cost) / (budget // 2)
        limit = max(1e-4 * scale,
                    30 * np.sqrt(scale * (rate + 1e-12 * scale)))
        worst = gaps(p, b)
        if max(worst.values()) <= limit:
            break
    else:
        require(False, 'after %d iterations the cost %r falls by only %g per '
                'iteration, but can be improved by changing single factors: '
                '%r (scale %g)', budget, b.cost, rate, worst, scale)
    fact.labels(p, ctx)
    ctx.label('%d iterations' % budget,
              'stalled' if rate < 1e-10 * scale else 'still falling')
    ctx.mark(b.cost > 1e-9 * scale and rate < 1e-6 * scale)


SUBS = [Sub('aa', lambda tier: cases(('aa', 'kaa')), check, 240, 8000),
        Sub('gpnh', lambda tier: cases(('gpnh',)), check, 160, 6000),
        Sub('mtd', lambda tier: cases(('mtd',)), check, 160, 6000)]
