"""P06: cost_ is the documented objective at the returned factors."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt.core import Sub, get_array, require

RULE = ('Fits of every method with random data, penalties, lags, budgets and '
        'fixed factors; the objective is recomputed from its definition with '
        'loops over samples, states and lags. Non-trivial: at least two '
        'components, and a positive reconstruction error or penalty.')
ASSUMPTIONS = ['Agreement to 1e-9 relative to the magnitude of the terms '
               'entering the cost.']


@st.composite
def cases(draw, large=False):
    p = draw(fact.problems(
        methods=('aa', 'kaa', 'gpnh', 'mtd', 'crom'),
        n=(draw(st.sampled_from([1, 3])), 9), scale=draw(st.booleans()), iterations=(1, 8), large_n=25,
        big=1 if large else 9, huge='always' if large else True,
        tolerance=draw(st.sampled_from([0.0, 1e-6, 1e-2])), max_lag=4))
    if draw(st.integers(0, 19)) == 19 and p['X'].size < 300:
        p['max_iterations'] = draw(st.integers(20, 70))
    if draw(st.integers(0, 5)) == 5:
        p['options'] = draw(fact.search_options())
    return {'p': p}


def check(case, ctx):
    p = case['p']
    f = fact.run(p)
    value = fact.objective(p, f.W, f.D, getattr(f, 'order_weights', None),
                           getattr(f, 'transitions', None))
    scale = fact.cost_scale(p, f.W, f.D)
    require(abs(value - f.cost) <= 1e-9 * scale + 1e-300,
            'cost_ is %r, but the objective at the returned factors is %r',
            f.cost, value)
    require(f.cost >= -1e-9 * scale, 'negative cost %r', f.cost)
    w = f.W
    rec = get_array(f.model.inverse_transform(w.copy()),
                    (w.shape[0], f.D.shape[1]), 'inverse_transform')
    expected = w.dot(f.D)
    err = float(np.abs(rec - expected).max())
    require(err <= 1e-12 * (1 + float(np.abs(f.D).max())) * 10,
            'inverse_transform differs from weights times dictionary by %g',
            err)
    fact.labels(p, ctx)
    for name in ('epsilon_states', 'epsilon_weights'):
        if p.get(name):
            ctx.label(name + '>0')
    ctx.mark(p['k'] > 1 and value > 1e-9 * scale)


SUBS = [Sub('cost', lambda tier: cases(), check, 6000, 150000),
        Sub('large', lambda tier: cases(True), check, 400, 8000)]
