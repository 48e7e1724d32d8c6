"""P05: feasible factors after every fit and transform."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, get_array, require

RULE = ('Data of several kinds (generic, integer grids, duplicated and nearly '
        'duplicated samples, low rank, exact convex combinations, constant, '
        'outliers; shifted and scaled by up to 1e9), every method, '
        'initialisation, regularisation, iteration budget and set of fixed '
        'factors. A case is non-trivial when there are at least two '
        'components and the data are not all equal.')
ASSUMPTIONS = ['Rounding: entries down to -1e-12 count as non-negative, sums '
               'may be off by 1e-9.']


def feasible(f, what):
    p = f.p
    fact.check_stochastic(f.W, 1, 'weights after ' + what)
    if p['method'] in fact.AA_LIKE:
        delta = p['delta']
        require(bool((f.D >= -1e-12).all()), 'negative dictionary entry')
        s = f.D.sum(axis=1)
        require(bool((np.abs(s - 1) <= delta + 1e-9).all()),
                'dictionary rows sum to %r (delta=%r)', s.tolist(), delta)
    if p['method'] in fact.MTD_LIKE:
        fact.check_stochastic(f.order_weights[None], 1, 'order weights')
        fact.check_stochastic(f.transitions, 1, 'transition matrix columns')


@st.composite
def fit_cases(draw, large=False):
    p = draw(fact.problems(methods=('aa', 'kaa', 'gpnh', 'mtd', 'crom'),
                           n=(draw(st.sampled_from([1, 3])), 9),
                           scale=True, iterations=(1, 12), large_n=40,
                           big=1 if large else 9,
                           huge='always' if large else True,
                           tolerance=draw(st.sampled_from([0.0, 1e-8, 1e-2]))))
    if draw(st.integers(0, 19)) == 19 and p['X'].size < 300:
        p['max_iterations'] = draw(st.integers(20, 70))
    if draw(st.integers(0, 5)) == 5:
        p['options'] = draw(fact.search_options())
    new, _ = gen.draw_data(draw, p['X'].shape[0], p['X'].shape[1], scale=True)
    return {'p': p, 'new': new}


def check_fit(case, ctx):
    p = case['p']
    f = fact.run(p)
    feasible(f, 'fitting')
    # Transform different data (for AA: as many samples as in the fit).
    new = case['new']
    arg = new.dot(new.T) if p['method'] == 'kaa' else new.copy()
    w = get_array(f.model.transform(arg), f.W.shape, 'transformed weights')
    fact.check_stochastic(w, 1, 'weights after transform')
    if p['method'] not in fact.AA_LIKE and \
            new.shape[0] - 1 > max(p.get('lags', [2])):
        w = get_array(f.model.transform(new[:-1].copy()),
                      (new.shape[0] - 1, p['k']), 'transformed weights')
        fact.check_stochastic(w, 1, 'weights after transform')
    if p['method'] in fact.MTD_LIKE:
        fact.check_stochastic(
            get_array(f.model.order_weights, (len(p['lags']),), 'orders')[None],
            1, 'order weights after transform')
    fact.labels(p, ctx)
    ctx.mark(p['k'] > 1 and np.ptp(p['X'], axis=0).max() > 0)


SUBS = [Sub('fit', lambda tier: fit_cases(), check_fit, 6000, 150000),
        Sub('large', lambda tier: fit_cases(True), check_fit, 400, 8000)]
