"""P19: forecasts follow the fitted MTD recursion."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, get_array, require

RULE = ('A model is fitted to generated data, and predict on other data is '
        'compared with a naive recursion over the weights which transform '
        'gives on a deep copy of the model (so that both see the same random '
        'numbers). Non-trivial: two or more components, positive horizon and '
        'a lag above one.')
ASSUMPTIONS = ['The data to predict from are longer than the largest lag.']


@st.composite
def cases(draw, tier, large=False):
    p = draw(fact.problems(
        methods=('mtd', 'crom'), n=(3, 9), d=(1, 3),
        kinds=('normal', 'generic', 'convex', 'grid', 'dup'), max_lag=4,
        iterations=(1, 5), large_n=40 if tier == 'thorough' else None,
        weights_kind=draw(st.sampled_from([None, 'seeded'])),
        big=1 if large else 9, huge='always' if large else True))
    n = max(p['lags']) + draw(gen.sizes(1, 8, 40, huge=300))
    return {'p': p, 'Y': gen.draw_normal(draw, (n, p['X'].shape[1])),
            'on_training': draw(st.integers(0, 3)) == 0,
            'horizon': draw(gen.sizes(0, 7, 40, huge=200)),
            'default': draw(st.booleans())}


def check(case, ctx):
    p, h = case['p'], case['horizon']
    f = fact.run(p)
    Y = p['X'] if case['on_training'] else case['Y']
    n, d = Y.shape
    lags, m = p['lags'], max(p['lags'])
    twin = copy.deepcopy(f.model)
    W = get_array(twin.transform(Y.copy()), (n, p['k']), 'the weights')
    kw = {} if h == 0 and case['default'] else {'horizon': h}
    F = get_array(f.model.predict(Y.copy(), **kw), (n, d), 'the forecast',
                  finite=False)
    expected = np.full((n, d), np.nan)
    for t in range(n):
        if h > 0 and t < m - 1:
            continue
        history = [W[i] for i in range(t + 1)]
        for _ in range(h):
            state = np.zeros(p['k'])
            for w, l, T in zip(f.order_weights, lags, f.transitions):
                state = state + w * T.dot(history[-l])
            history.append(state)
        expected[t] = history[-1].dot(f.D)
    nans = np.isnan(expected)
    require(bool((np.isnan(F) == nans).all()),
            'rows %r of the forecast are NaN instead of %r (horizon %d, lags '
            '%r)', np.flatnonzero(np.isnan(F).any(axis=1)).tolist(),
            np.flatnonzero(nans.any(axis=1)).tolist(), h, lags)
    err = np.abs(F - expected)[~nans]
    scale = 1 + float(np.abs(f.D).max())
    require(err.size == 0 or err.max() <= 1e-9 * scale,
            'the forecast differs from the recursion by %r (horizon %d, lags '
            '%r)', float(err.max()) if err.size else 0, h, lags)
    # The forecasts lie in the hull of the states.
    lo, hi = f.D.min(axis=0), f.D.max(axis=0)
    G = F[~nans.any(axis=1)]
    require(bool((G >= lo - 1e-6 * scale).all() and
                 (G <= hi + 1e-6 * scale).all()),
            'a forecast leaves the range of the states')
    ctx.label(p['method'], 'h=%s' % (h if h < 3 else '3+'),
              'lags=%d' % len(lags),
              'unsorted' if list(lags) != sorted(lags) else 'sorted')
    fact.labels(p, ctx)
    ctx.mark(p['k'] > 1 and h > 0 and m > 1)


SUBS = [Sub('forecasts', lambda tier: cases(tier), check, 2500, 50000),
        Sub('large', lambda tier: cases(tier, True), check, 200, 4000)]
