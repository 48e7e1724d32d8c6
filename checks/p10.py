"""P10: optimal MTD parameters for fixed weights."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, require

RULE = ('Weight sequences of every kind (also generated by an MTD chain) with '
        'one to three lags in any order, up to five. The fitted parameters '
        'are judged by the Frank-Wolfe gap over the product of simplices: '
        'with one lag the problem is convex and the gap bounds the distance '
        'to the global minimum, with several it bounds first-order '
        'improvement. Single-lag fits are also compared with the generating '
        'and with uniform parameters. Non-trivial: two or more components and '
        'a prediction error that the uniform model does not minimise.')
ASSUMPTIONS = ['The prediction error is of order one; the gap must fall to 1e-5 '
               'within 200 iterations, or to 1e-4 within 2000, or to 1e-3 '
               'within 20000 (ill-conditioned problems converge slowly). With '
               'one lag and a condition number below 50 it must be below 1e-8 '
               'after 1000 iterations.']

BUDGETS = ((200, 1e-5), (2000, 1e-4), (20000, 1e-3))
TOL = 1e-3
ALPHA_MAX = 1e3


@st.composite
def sequences(draw, n, k, lags):
    kind = draw(st.sampled_from(['seeded', 'sparse', 'onehot', 'chain',
                                 'noisy']))
    if kind in ('chain', 'noisy'):
        q = len(lags)
        omega = gen.stochastic_rows(draw, (1, q))[0]
        T = [gen.stochastic_columns(draw, (k, k)) for _ in range(q)]
        W = gen.stochastic_rows(draw, (n, k), 'sparse')
        for t in range(max(lags), n):
            z = fact.mtd_step(W[:t], lags, omega, T)
            W[t] = z if kind == 'chain' else 0.7 * z + 0.3 * W[t]
        return W / W.sum(axis=1, keepdims=True), kind
    return gen.stochastic_rows(draw, (n, k), kind), kind


@st.composite
def cases(draw):
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    single = draw(st.booleans())
    lags = draw(st.lists(st.integers(1, 5), min_size=1,
                         max_size=1 if single else 3, unique=True))
    n = max(lags) + draw(gen.sizes(1, 12, 40, huge=150))
    d = draw(st.integers(1, 3))
    W, kind = draw(sequences(n, k, lags))
    p = {'method': 'mtd', 'k': k, 'lags': lags, 'kind': kind,
         'X': gen.draw_normal(draw, (n, d)), 'weights': W,
         'dictionary': gen.draw_normal(draw, (k, d)),
         'init': draw(st.sampled_from(['random', None, 'custom',
                                       'furthest_sum'])),
         'seed': draw(gen.seeds()), 'tolerance': 0.0, 'epsilon_states': 0.0,
         'epsilon_weights': draw(st.sampled_from([0.5, 1.0, 10.0])),
         'fixed': ['dictionary', 'weights']}
    if p['init'] == 'custom':
        q = len(lags)
        p['order_weights'] = gen.stochastic_rows(draw, (1, q))[0]
        p['transition_matrices'] = np.array(
            [gen.stochastic_columns(draw, (k, k)) for _ in range(q)])
    return {'p': p}


def well_conditioned(W, lags, epsilon):
    """Whether the prediction error is strongly convex in the parameters."""
    if len(lags) > 1:
        return False
    n, k = W.shape
    V = W[:-lags[0]]
    h = 2 * epsilon * np.linalg.eigvalsh(V.T.dot(V)) / (k * (n - lags[0]))
    return ALPHA_MAX * h.min() > 2 and h.max() < 50 * h.min()


def judge(k, lags, ctx, again, epsilon=1.0):
    """`again(budget)` returns a fit and the weights its parameters are for."""
    f, W = again(1000)
    budgets = BUDGETS
    if well_conditioned(W, lags, epsilon):
        budgets = ((1000, 1e-8),)
        ctx.label('well-conditioned')
    for budget, tol in budgets:
        f, W = again(budget)
        fact.check_stochastic(f.order_weights[None], 1, 'order weights')
        fact.check_stochastic(f.transitions, 1, 'transition columns')
        if k == 1:
            return
        go, gt = fact.parameters_gradient(W, lags, f.order_weights,
                                          f.transitions)
        gap = fact.simplex_gap(go[None], f.order_weights[None], 1) + \
            fact.simplex_gap(gt, f.transitions, 1)
        if gap <= tol:
            break
    require(gap <= tol, 'the MTD parameters can be improved to first order '
            '(gap %g) after %d iterations', gap, budget)
    ctx.label('%d iterations' % budget)
    value = fact.mtd_penalty(W, lags, f.order_weights, f.transitions)
    if len(lags) == 1:
        rng = np.random.RandomState(1)
        uniform = np.full((1, k, k), 1.0 / k)
        for T in [uniform, np.eye(k)[None]] + \
                [rng.dirichlet(np.ones(k), size=(1, k)).swapaxes(1, 2)
                 for _ in range(4)]:
            other = fact.mtd_penalty(W, lags, f.order_weights, T)
            require(value <= other + 2 * tol,
                    'prediction error %r, but %r is possible', value, other)
    uni = fact.mtd_penalty(W, lags, np.full(len(lags), 1.0 / len(lags)),
                           np.full((len(lags), k, k), 1.0 / k))
    ctx.mark(value < uni - 1e-4)


def check_mtd(case, ctx):
    p = case['p']

    def again(budget):
        f = fact.run(p, max_iterations=budget)
        require(np.array_equal(f.W, p['weights']),
                'the fixed weights were changed')
        require(np.array_equal(f.D, p['dictionary']),
                'the fixed dictionary was changed')
        return f, f.W

    judge(p['k'], p['lags'], ctx, again, p['epsilon_weights'])
    ctx.label(p['kind'], '%d lags' % len(p['lags']), 'init=%s' % p['init'],
              'sorted' if p['lags'] == sorted(p['lags']) else 'unsorted')


@st.composite
def crom_cases(draw):
    lags = draw(st.lists(st.integers(1, 4), min_size=1, max_size=2,
                         unique=True))
    k = draw(st.sampled_from([1, 2, 2, 3]))
    n = max(lags) + draw(st.integers(2, 10))
    d = draw(st.integers(1, 3))
    X, kind = gen.draw_data(draw, n, d, kinds=('normal', 'generic', 'convex',
                                               'dup'), k=k)
    p = {'method': 'crom', 'k': k, 'lags': lags, 'kind': kind, 'X': X,
         'init': draw(st.sampled_from(['random', None, 'custom'])),
         'seed': draw(gen.seeds()), 'tolerance': 0.0,
         'epsilon_states': draw(st.sampled_from([0.0, 0.1])), 'fixed': []}
    if p['init'] == 'custom':
        p['dictionary'] = gen.draw_normal(draw, (k, d))
        p['weights'] = gen.stochastic_rows(draw, (n, k))
    return {'p': p}


def check_crom(case, ctx):
    p = case['p']

    def again(budget):
        f = fact.run(p, max_iterations=budget)
        # The convex coding itself is unaffected by the chain fitted to it.
        g = fact.run(dict(p, method='gpnh'), max_iterations=budget)
        require(np.allclose(f.W, g.W, rtol=0, atol=1e-9) and
                np.allclose(f.D, g.D, rtol=0, atol=1e-9),
                'the CROM differs from the GPNH convex coding')
        return f, f.W

    judge(p['k'], p['lags'], ctx, again)
    ctx.label(p['kind'], '%d lags' % len(p['lags']))


SUBS = [Sub('mtd', lambda tier: cases(), check_mtd, 500, 12000),
        Sub('crom', lambda tier: crom_cases(), check_crom, 200, 5000)]
