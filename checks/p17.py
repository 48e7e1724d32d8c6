"""P17: exact convex combinations are encoded and decoded without loss."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, get_array, require

RULE = ('Round trip: samples are built as convex combinations of affinely '
        'independent states (edge vectors with singular values in [0.5, 2]); '
        'transform with that dictionary must recover the weights and '
        'inverse_transform the samples to 1e-5, with budgets growing up to '
        '20000 iterations. Linearity: inverse_transform of arbitrary matrices '
        'is compared with their product with dictionary_. Non-trivial: at '
        'least two states.')
ASSUMPTIONS = ['For archetypal analysis the archetypes are samples (one-hot '
               'dictionary), for MTD the weights are not penalised.']
BUDGETS = (100, 1000, 20000)
TOL = 1e-5


def independent_states(draw, k, d):
    edges = gen.draw_normal(draw, (k - 1, d))
    if k > 1:
        u, s, v = np.linalg.svd(edges, full_matrices=False)
        edges = (u * np.clip(s, 0.5, 2.0)).dot(v)
    origin = gen.draw_normal(draw, (1, d)) * draw(st.sampled_from([0, 1, 3]))
    return np.concatenate([origin, origin + edges])


@st.composite
def round_trips(draw, large=False):
    method = draw(st.sampled_from(('aa', 'kaa', 'gpnh', 'mtd', 'crom')))
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    d = draw(st.integers(max(k - 1, 1), 6))
    n = draw(st.integers(1, 12 if not large else 40))
    p = {'method': method, 'k': k, 'seed': draw(gen.seeds()),
         'tolerance': 0.0, 'fixed': ['dictionary'],
         'init': draw(st.sampled_from(['random', 'custom', None,
                                       'furthest_sum']))}
    S = independent_states(draw, k, d)
    W = gen.stochastic_rows(draw, (n, k))
    if method in fact.AA_LIKE:
        # The archetypes are among the samples.
        where = np.random.RandomState(draw(gen.seeds())).permutation(n + k)
        W = np.concatenate([np.eye(k), W])[where]
        C = np.zeros((k, n + k))
        C[:, :] = np.argsort(where)[:k, None] == np.arange(n + k)[None]
        p['dictionary'] = C
        p['delta'] = 0.0
    else:
        p['dictionary'] = S
        p['epsilon_states'] = draw(st.sampled_from([0.0, 0.5]))
        if method in fact.MTD_LIKE:
            p['lags'] = draw(gen.lag_sets(3))
            p['epsilon_weights'] = 0.0
            short = max(p['lags']) + 1 - n
            if short > 0:
                W = np.concatenate([W, np.tile(W[-1:], (short, 1))])
    p['X'] = W.dot(S)
    n = p['X'].shape[0]
    if p['init'] == 'custom':
        # A guess away from the solution.
        p['weights'] = gen.stochastic_rows(draw, (n, k), 'seeded')
        if method == 'mtd':
            q = len(p['lags'])
            p['order_weights'] = np.full(q, 1.0 / q)
            p['transition_matrices'] = np.tile(np.eye(k), (q, 1, 1))
    p['other'] = gen.stochastic_rows(draw, W.shape, 'seeded')
    return {'p': p, 'W': W, 'S': S}


def check_round_trip(case, ctx):
    p, W, S = case['p'], case['W'], case['S']
    n, k = W.shape
    message = None
    for budget in BUDGETS:
        model = fact.build(p, max_iterations=budget)
        # Fit something else with the same dictionary.
        if p['method'] in fact.AA_LIKE:
            data = fact.data_of(p)
            model.fit(data.copy(), **fact.fit_kwargs(p))
        else:
            q = dict(p, X=p['other'].dot(S))
            data = p['X']
            model.fit(q['X'].copy(), **fact.fit_kwargs(q))
        G = get_array(model.transform(data.copy()), (n, k), 'the weights')
        back = get_array(model.inverse_transform(G.copy()), (n, n)
                         if p['method'] in fact.AA_LIKE else p['X'].shape,
                         'the reconstruction')
        if p['method'] in fact.AA_LIKE:
            back = back.dot(p['X'])
        message = None
        if np.abs(G - W).max() > TOL:
            message = 'the weights are recovered only up to %.3g' % \
                np.abs(G - W).max()
        elif np.abs(back - p['X']).max() > TOL * (1 + np.abs(p['X']).max()):
            message = 'the data are recovered only up to %.3g' % \
                np.abs(back - p['X']).max()
        if message is None:
            break
    require(message is None, '%s', message)
    ctx.label(p['method'], 'k=%d' % k, 'budget=%d' % budget)
    ctx.mark(k > 1)


@st.composite
def linear_cases(draw, large=False):
    p = draw(fact.problems(methods=('aa', 'kaa', 'gpnh', 'mtd', 'crom'),
                           kinds=('normal', 'generic', 'grid'),
                           iterations=(1, 3), big=1 if large else 9,
                           huge='always' if large else True))
    m = draw(st.integers(1, 6))
    if draw(st.integers(0, 9)) == 9:
        m = draw(st.sampled_from([30, 64, 101, 150]))
    U = gen.draw_matrix(draw, (m, p['k']))
    if draw(st.integers(0, 2)) == 2:
        # Weights that are feasible up to an error, not to be corrected.
        e = draw(st.sampled_from([0.0, 1e-9, 1e-6, 1e-4, 1e-3, -1e-3, 5e-3,
                                  -5e-3, 2e-2, -0.1]))
        s = draw(gen.seeds())
        U = np.random.RandomState(s).dirichlet(np.ones(p['k']), m)
        U[:, 0] += e * draw(st.sampled_from([1.0, 1.0, U.min()]))
    return {'p': p, 'U': U,
            'V': gen.draw_normal(draw, (m, p['k'])),
            'a': draw(st.sampled_from([-1.0, 0.5, 2.0])),
            'layout': draw(st.sampled_from(gen.LAYOUTS)),
            'transform_first': draw(st.booleans())}


def check_linear(case, ctx):
    p = case['p']
    f = fact.run(p)
    model = f.model
    if case['transform_first']:
        model.transform(fact.data_of(p))
    m = case['U'].shape[0]

    def inverse(w):
        return get_array(model.inverse_transform(
            gen.layout(w, case['layout'])), (m, f.D.shape[1]),
            'the reconstruction')

    scale = 1e-12 * (1 + np.abs(f.D).max()) * 20
    U, V, a = case['U'], case['V'], case['a']
    iu, iv = inverse(U), inverse(V)
    for w, i in ((U, iu), (V, iv)):
        require(np.abs(i - w.dot(f.D)).max() <= scale,
                'inverse_transform is not the product with dictionary_')
    require(np.abs(inverse(a * U + V) - (a * iu + iv)).max() <= 4 * scale,
            'inverse_transform is not linear')
    fact.labels(p, ctx)
    ctx.mark(p['k'] > 1)


SUBS = [Sub('round_trip', lambda tier: round_trips(tier == 'thorough'),
            check_round_trip, 800, 15000),
        Sub('linear', lambda tier: linear_cases(), check_linear, 1000, 20000),
        Sub('large', lambda tier: linear_cases(True), check_linear, 150,
            3000)]
