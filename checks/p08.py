"""P08: optimal weights for a fixed dictionary."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, get_array, require

RULE = ('Order-one data and dictionaries (also redundant, duplicated and '
        'exactly representing ones). The weights are judged by the '
        'Frank-Wolfe gap of the objective, an upper bound for how far its '
        'value is above the global minimum of this convex problem, with the '
        'gradient written out from the definition. Non-trivial: at least two '
        'components and an optimum away from the uniform weights.')
ASSUMPTIONS = ['The excess over the minimum, relative to the cost scale, must '
               'fall to 1e-5 within 100 iterations, or to 1e-4 within 1000, '
               'or to 1e-3 within 10000 (ill-conditioned problems converge '
               'slowly); it is not judged when the smallest nonzero curvature '
               'times the largest spectral step is below 0.1 and 10000 '
               'iterations do not suffice. If the problem is strongly '
               'convex with a condition number below 50, the excess must be '
               'below 1e-6 after 1000 iterations.']

BUDGETS = ((100, 1e-5), (1000, 1e-4), (10000, 1e-3))
TOL = 1e-3
ALPHA_MAX = 1e3


@st.composite
def cases(draw, methods=('aa', 'kaa', 'gpnh', 'mtd'), large=False):
    p = draw(fact.problems(
        methods=methods, inits=('random', None, 'furthest_sum', 'custom'),
        n=(3, 6), d=(1, 3), k=(1, 4), fixed=False, delta=False, max_lag=2,
        big=1 if large else 9, huge='always' if large else False,
        kinds=('normal', 'normal', 'generic', 'grid', 'dup', 'convex')))
    method, k = p['method'], p['k']
    if method in fact.AA_LIKE:
        p['X'] = p['X'][:65]        # many more converge too slowly
    n, d = p['X'].shape
    fixed = ['dictionary'] + (['parameters'] if method == 'mtd' else [])
    p['fixed'] = fixed
    if method in fact.AA_LIKE:
        p['dictionary'] = gen.stochastic_rows(draw, (k, n))
    else:
        how = draw(st.sampled_from(['normal', 'samples', 'dup']))
        if how == 'normal':
            p['dictionary'] = 1.5 * gen.draw_normal(draw, (k, d))
        elif how == 'samples':
            p['dictionary'] = p['X'][np.arange(k) % n].copy()
        else:
            p['dictionary'] = np.tile(gen.draw_normal(draw, (1, d)), (k, 1))
            p['dictionary'][0] += 1
        p['epsilon_states'] = draw(st.sampled_from([0.0, 0.5, 20.0]))
    if method == 'mtd':
        q = len(p['lags'])
        p['epsilon_weights'] = draw(st.sampled_from([0.0, 0.1, 1.0]))
        p['order_weights'] = gen.stochastic_rows(draw, (1, q))[0]
        p['transition_matrices'] = np.array(
            [gen.stochastic_columns(draw, (k, k)) for _ in range(q)])
    if p['init'] == 'custom':
        p['weights'] = gen.stochastic_rows(draw, (n, k))
    more = draw(st.integers(0, 4))
    new, _ = gen.draw_data(draw, n + more, d,
                           kinds=('normal', 'generic', 'convex'))
    return {'p': p, 'new': new, 'less': draw(st.booleans())}


def gap_of(p, W):
    g = fact.weights_gradient(p, W, p['dictionary'], p.get('order_weights'),
                              p.get('transition_matrices'))
    return fact.simplex_gap(g, W, 1)


def scale_of(p):
    X, D = p['X'], p['dictionary']
    if p['method'] in fact.AA_LIKE:
        return 1e-6 + float((X * X).sum())
    return 1e-6 + float((X * X).mean() + (D * D).mean()) + \
        p.get('epsilon_weights', 0.0)


def slow(p):
    """Whether the largest admissible step is small for the curvature."""
    Z = p['dictionary']
    if p['method'] in fact.AA_LIKE:
        Z = Z.dot(p['X'])
    h = np.linalg.eigvalsh(Z.dot(Z.T))
    h = 2 * h[h > 1e-12 * h.max()]
    if p['method'] not in fact.AA_LIKE:
        h = h / p['X'].size
    return h.size > 0 and ALPHA_MAX * h.min() < 0.1


def well_conditioned(p):
    """Whether the problem is strongly convex over the simplex."""
    Z, k = p['dictionary'], p['k']
    unit = 1.0
    if p['method'] in fact.AA_LIKE:
        Z = Z.dot(p['X'])
    else:
        unit = 1.0 / p['X'].size
    if k == 1:
        return True
    C = Z - Z.mean(axis=0)
    low = 2 * unit * np.sort(np.linalg.eigvalsh(C.dot(C.T)))[1]
    top = 2 * unit * np.linalg.eigvalsh(Z.dot(Z.T)).max()
    if p['method'] == 'mtd':
        top += 2 * p['epsilon_weights'] * (1 + np.sqrt(k)) ** 2 / \
            (k * (p['X'].shape[0] - max(p['lags'])))
    return low * ALPHA_MAX > 2 and low * 50 > top


def converge(p, attempt, ctx, what):
    """Smallest sufficient budget, judged by the gap."""
    if well_conditioned(p):
        W = attempt(1000)
        fact.check_stochastic(W, 1, 'the weights')
        gap = gap_of(p, W)
        require(gap <= 1e-6 * scale_of(p), '%s: weights can be improved (gap '
                '%g, cost scale %g) after 1000 iterations', what, gap,
                scale_of(p))
        ctx.label(what + ': well-conditioned')
        return W
    for budget, tol in BUDGETS:
        W = attempt(budget)
        fact.check_stochastic(W, 1, 'the weights')
        gap = gap_of(p, W)
        if gap <= tol * scale_of(p):
            ctx.label('%s: %d iterations' % (what, budget))
            return W
    if slow(p):
        ctx.label('too ill-conditioned')
        return None
    require(False, '%s: weights can be improved (gap %g, cost scale %g) after '
            '%d iterations', what, gap, scale_of(p), BUDGETS[-1][0])


def check_fit(case, ctx):
    p = case['p']

    def attempt(budget):
        f = fact.run(p, max_iterations=budget)
        require(np.array_equal(f.D, p['dictionary']),
                'the fixed dictionary was changed')
        if p['method'] == 'mtd':
            require(np.array_equal(f.order_weights, p['order_weights']) and
                    np.array_equal(f.transitions, p['transition_matrices']),
                    'the fixed parameters were changed')
        return f.W

    W = converge(p, attempt, ctx, 'fit')
    fact.labels(p, ctx)
    ctx.mark(W is not None and p['k'] > 1 and np.abs(W - 1.0 / p['k']).max() > 1e-3)


def check_transform(case, ctx):
    """Transform new data with a dictionary installed by a fit."""
    p = dict(case['p'])
    n, k = p['X'].shape[0], p['k']
    install = dict(p, init='custom', weights=np.full((n, k), 1.0 / k))
    install['fixed'] = p['fixed'] + ['weights']
    rows = n
    if p['method'] not in fact.AA_LIKE:
        rows = max(n - 1, 1) if case['less'] else case['new'].shape[0]
        if p['method'] == 'mtd':
            rows = max(rows, max(p['lags']) + 1)
    target = dict(p, X=case['new'][:rows])

    def attempt(budget):
        f = fact.run(install, max_iterations=budget)
        return get_array(f.model.transform(fact.data_of(target)), (rows, k),
                         'the weights')

    W = converge(target, attempt, ctx, 'transform')
    if W is None:
        return
    # Neither can the weights of any single sample be replaced profitably.
    i = p['seed'] % rows
    om, tm = p.get('order_weights'), p.get('transition_matrices')
    here = fact.objective(target, W, p['dictionary'], om, tm)
    for j in range(k):
        for t in (1.0, 0.3):
            V = W.copy()
            V[i] = (1 - t) * V[i]
            V[i, j] += t
            other = fact.objective(target, V, p['dictionary'], om, tm)
            require(other >= here - 2 * TOL * scale_of(target),
                    'replacing the weights of sample %d lowers the cost from '
                    '%r to %r', i, here, other)
    fact.labels(p, ctx)
    ctx.mark(k > 1 and np.abs(W - 1.0 / k).max() > 1e-3)


@st.composite
def fitted_cases(draw):
    p = draw(fact.problems(
        methods=('aa', 'aa', 'kaa', 'gpnh', 'mtd', 'crom'), n=(3, 6),
        d=(1, 3), k=(1, 4), max_lag=2, iterations=(1, 4), big=12,
        kinds=('normal', 'normal', 'generic', 'grid', 'convex')))
    if p['method'] in fact.AA_LIKE and draw(st.booleans()):
        p['delta'] = draw(st.sampled_from([0.1, 0.5, 0.9]))
    n, d = p['X'].shape
    new, _ = gen.draw_data(draw, n, d, kinds=('normal', 'generic', 'convex'))
    return {'p': p, 'new': new, 'same': draw(st.booleans()),
            'before': draw(st.booleans())}


def check_fitted(case, ctx):
    """Transform data with a dictionary that has been fitted."""
    p = case['p']
    f = fact.run(p)
    target = dict(p, X=p['X'] if case['same'] else case['new'],
                  dictionary=f.D)
    if p['method'] == 'mtd':
        target.update(order_weights=f.order_weights,
                      transition_matrices=f.transitions)
    if case['before']:
        f.model.transform(fact.data_of(dict(p, X=case['new'])))

    def attempt(budget):
        f.model.max_iterations = budget
        return get_array(f.model.transform(fact.data_of(target)), f.W.shape,
                         'the weights')

    W = converge(target, attempt, ctx, 'transform after a fit')
    if W is None:
        return
    fact.labels(p, ctx)
    if p.get('delta') and np.abs(f.D.sum(axis=1) - 1).max() > 0.01:
        ctx.label('relaxed dictionary')
    ctx.mark(p['k'] > 1 and np.abs(W - 1.0 / p['k']).max() > 1e-3)


SUBS = [Sub('fitted', lambda tier: fitted_cases(), check_fitted, 400, 10000),
        Sub('large', lambda tier: cases(large=True), check_fit, 60, 1500),
        Sub('large_transform', lambda tier: cases(large=True),
            check_transform, 60, 1500),
        Sub('fit', lambda tier: cases(), check_fit, 500, 12000),
        Sub('transform', lambda tier: cases(), check_transform, 400, 10000)]
