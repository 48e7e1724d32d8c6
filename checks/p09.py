"""P09: optimal dictionary for fixed weights."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, require

RULE = ('Order-one data with weights of every kind (generic, sparse, one-hot '
        'with empty components, uniform). GPNH and MTD dictionaries are '
        'compared to the exact minimiser of the regularised least-squares '
        'problem, archetypal dictionaries are judged by the Frank-Wolfe gap. '
        'Non-trivial: the dictionary had to move and is not determined by '
        'symmetry.')
ASSUMPTIONS = ['The excess over the minimum, relative to the cost scale, must '
               'fall to 1e-5 within 100 iterations, or to 1e-4 within 1000, '
               'or to 1e-3 within 10000 (ill-conditioned problems converge '
               'slowly). It only has to fall at all when the smallest nonzero '
               'curvature times the largest spectral step is below 0.1. For '
               'GPNH and MTD dictionaries and a condition number below 50 '
               '(1000) it must be below 1e-8 after 1000 (3000) iterations, '
               'and below 1e-6 after 10000 for one of 5000.']

BUDGETS = ((100, 1e-5), (1000, 1e-4), (10000, 1e-3))
TOL = 1e-3
ALPHA_MAX = 1e3


@st.composite
def cases(draw, large=False):
    p = draw(fact.problems(
        inits=('random', None, 'furthest_sum', 'custom'), n=(3, 7), d=(1, 3),
        k=(1, 4), fixed=False, delta=False, max_lag=2,
        big=1 if large else 9, huge='always' if large else False,
        kinds=('normal', 'normal', 'generic', 'grid', 'dup', 'convex')))
    method, k = p['method'], p['k']
    if method in fact.AA_LIKE:
        p['X'] = p['X'][:65]        # many more converge too slowly
    n, d = p['X'].shape
    p['fixed'] = ['weights']
    p['weights'] = gen.stochastic_rows(draw, (n, k))
    if k > 1 and draw(st.integers(0, 4)) == 4:
        # One of the components is hardly used.
        p['weights'][:, 0] *= draw(st.sampled_from([0.3, 0.1, 0.03]))
        p['weights'][:, 1:] += 1e-3
        p['weights'] /= p['weights'].sum(axis=1)[:, None]
    if method in ('gpnh', 'mtd'):
        p['epsilon_states'] = draw(st.sampled_from([0.0, 0.0, 0.01, 0.5, 5.0]))
    if method == 'mtd':
        q = len(p['lags'])
        p['epsilon_weights'] = draw(st.sampled_from([0.0, 0.5]))
        if draw(st.booleans()):
            p['fixed'].append('parameters')
            p['order_weights'] = gen.stochastic_rows(draw, (1, q))[0]
            p['transition_matrices'] = np.array(
                [gen.stochastic_columns(draw, (k, k)) for _ in range(q)])
        if p['init'] == 'custom':
            p['order_weights'] = gen.stochastic_rows(draw, (1, q))[0]
            p['transition_matrices'] = np.array(
                [gen.stochastic_columns(draw, (k, k)) for _ in range(q)])
    if p['init'] == 'custom':
        p['dictionary'] = gen.stochastic_rows(draw, (k, n)) \
            if method in fact.AA_LIKE else gen.draw_normal(draw, (k, d))
    return {'p': p}


def hessian(p):
    """Half the Hessian of the GPNH objective, for every feature."""
    X, W, k = p['X'], p['weights'], p['k']
    n, d = X.shape
    H = W.T.dot(W) / (n * d)
    if k > 1:
        # sum over pairs of |s_i - s_j|^2 = <S, (k I - 1) S>
        H = H + 2 * p['epsilon_states'] / (d * k * (k - 1)) * \
            (k * np.eye(k) - np.ones((k, k)))
    return H


def best_states(p):
    """Minimiser of the GPNH objective over the dictionary."""
    X, W = p['X'], p['weights']
    return np.linalg.pinv(hessian(p), rcond=1e-13).dot(W.T.dot(X) / X.size)


def excess(p, D):
    X, W = p['X'], p['weights']
    if p['method'] in fact.AA_LIKE:
        g = 2 * W.T.dot(W.dot(D.dot(X)) - X).dot(X.T)
        return fact.simplex_gap(g, D, 1)
    q = dict(p, method='gpnh')
    return (fact.objective(q, W, D) -
            fact.objective(q, W, best_states(p)))


def strict(p):
    """Budget and tolerance for problems that are not too ill-conditioned."""
    if p['method'] in fact.AA_LIKE:
        return None
    h = np.linalg.eigvalsh(hessian(p))
    h = 2 * h[h > 1e-12 * h.max()]
    if not h.size or ALPHA_MAX * h.min() < 0.5:
        return None
    for limit, budget, tol in ((50, 1000, 1e-8), (1000, 3000, 1e-8),
                               (5000, 10000, 1e-6)):
        if h.max() < limit * h.min():
            return budget, tol
    return None


def slow(p):
    """Whether the largest admissible step is small for the curvature."""
    W = p['weights']
    n, d = p['X'].shape
    if p['method'] in fact.AA_LIKE:
        h = np.outer(np.linalg.eigvalsh(W.T.dot(W)),
                     np.linalg.eigvalsh(p['X'].dot(p['X'].T))).ravel()
    else:
        h = np.linalg.eigvalsh(hessian(p))
    h = 2 * h[h > 1e-12 * h.max()]
    return h.size > 0 and ALPHA_MAX * h.min() < 0.1


def check(case, ctx):
    p = case['p']
    X = p['X']
    scale = 1e-6 + float((X * X).sum() if p['method'] in fact.AA_LIKE
                         else (X * X).mean())
    if 'dictionary' in p and p['method'] not in fact.AA_LIKE:
        scale += float((p['dictionary'] ** 2).mean())
    first = None
    good = strict(p)
    limit = good[1] if good else TOL
    for budget, tol in (good,) if good else BUDGETS:
        f = fact.run(p, max_iterations=budget)
        require(np.array_equal(f.W, p['weights']),
                'the fixed weights were changed')
        if 'parameters' in p['fixed']:
            require(np.array_equal(f.order_weights, p['order_weights']) and
                    np.array_equal(f.transitions, p['transition_matrices']),
                    'the fixed parameters were changed')
        e = excess(p, f.D)
        first = e if first is None else first
        if e <= tol * scale:
            break
    if e > limit * scale and slow(p):
        ctx.label('too ill-conditioned')
        require(e <= first + 1e-9 * scale, 'the excess rises from %r to %r '
                'with more iterations', first, e)
        return
    require(e <= limit * scale, 'the dictionary is not optimal for the given '
            'weights: cost %g above the minimum (scale %g) after %d '
            'iterations', e, scale, budget)
    fact.labels(p, ctx)
    ctx.label('%d iterations' % budget)
    ctx.mark(p['k'] > 1 and np.ptp(p['weights'], axis=0).max() > 0)


SUBS = [Sub('large', lambda tier: cases(True), check, 60, 1500),
        Sub('dictionary', lambda tier: cases(), check, 900, 20000)]
