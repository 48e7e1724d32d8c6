"""P27: relaxed archetype scales."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, get_array, require
from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA

RULE = ('Generated data and kernels (linear, polynomial, Gaussian) with '
        'several relaxations; the scales are the row sums of the published '
        'dictionary. The cost is compared with the reconstruction error of '
        'the scaled archetypes, and for fixed weights with the minimum over '
        'every single scale (a clipped parabola) and with the bound from the '
        'Frank-Wolfe gap over all scaled convex combinations. Non-trivial: '
        'a positive relaxation and a scale different from one.')
ASSUMPTIONS = ['For fixed weights, the relative excess over the minimum must '
               'fall to 1e-5 within 200 iterations, 1e-4 within 2000, or 1e-3 '
               'within 20000 iterations.']

BUDGETS = ((200, 1e-5), (2000, 1e-4), (20000, 1e-3))


def kernel_of(name, X):
    if name == 'linear':
        return X.dot(X.T)
    if name == 'poly':
        return (1 + X.dot(X.T)) ** 2
    d2 = ((X[:, None] - X[None]) ** 2).sum(axis=2)
    return np.exp(-0.5 * d2)


@st.composite
def cases(draw, tier, fixed):
    big = 14 if tier == 'thorough' else 9
    p = draw(fact.problems(
        methods=('aa', 'kaa'), inits=('random', None, 'furthest_sum',
                                      'custom'),
        n=(3, big), d=(1, 4), k=(1, 4), fixed=not fixed,
        kinds=('normal', 'normal', 'generic', 'grid', 'dup', 'convex'),
        iterations=(1, 30)))
    k, n = p['k'], p['X'].shape[0]
    p['delta'] = draw(st.sampled_from([0.0, 0.05, 0.2, 0.5, 0.9, 1.0]))
    p['kernel'] = draw(st.sampled_from(['linear', 'linear', 'poly', 'rbf']))
    p['shift'] = draw(st.sampled_from([0.0, 1.0]))
    if fixed:
        p['fixed'] = ['weights']
        p['delta'] = draw(st.sampled_from([0.05, 0.2, 0.5, 0.9]))
        p['weights'] = gen.stochastic_rows(draw, (n, k))
        if p['init'] == 'custom':
            p['dictionary'] = gen.stochastic_rows(draw, (k, n))
    p['X'] = p['X'] + p['shift']
    m = float(np.abs(p['X']).max())
    if p['kernel'] != 'linear' and m > 3:
        p['X'] = p['X'] * (3 / m)
    return p


def run(p, **override):
    o = dict(p, **override)
    kw = {'init': o['init'], 'tolerance': o['tolerance'], 'delta': o['delta'],
          'max_iterations': o['max_iterations'], 'random_state': o['seed']}
    K = kernel_of(o['kernel'], o['X'])
    if o['method'] == 'kaa':
        model, data = KernelAA(o['k'], **kw), K
    else:
        name = o['kernel']
        model = ArchetypalAnalysis(
            o['k'], kernel_func=None if name == 'linear'
            else lambda x: kernel_of(name, x), **kw)
        data = o['X']
    W = model.fit_transform(data.copy(), **fact.fit_kwargs(o))
    n, k = len(K), o['k']
    return (K, model, data, get_array(W, (n, k), 'the weights'),
            get_array(model.dictionary_, (k, n), 'dictionary_'))


def cost_of(K, W, D):
    WD = W.dot(D)
    return float(np.trace(K) - 2 * (WD * K).sum() +
                 (WD.dot(K) * WD).sum())


def check_scales(D, delta):
    require(bool((D >= -1e-12).all()), 'dictionary_ has a negative entry %r',
            float(D.min()))
    s = D.sum(axis=1)
    require(bool(np.all(s >= 1 - delta - 1e-9) and
                 np.all(s <= 1 + delta + 1e-9)),
            'the archetype scales %r are outside 1 -/+ %r', s, delta)
    return s


def size_of(K, delta):
    return len(K) * float(np.diag(K).max()) * (1 + delta) ** 2 + 1e-300


def check_fit(p, ctx):
    K, model, data, W, D = run(p)
    s = check_scales(D, p['delta'])
    size = size_of(K, p['delta'])
    fact.check_stochastic(W, 1, 'the weights')
    cost = cost_of(K, W, D)
    require(abs(float(model.cost_) - cost) <= 1e-9 * size,
            'cost_ is %r, the error with the scaled archetypes %r',
            model.cost_, cost)
    if 'dictionary' in p['fixed']:
        require(np.array_equal(D, p['dictionary']),
                'the fixed dictionary was changed')
    n = len(K)
    V = gen_weights(n, p['k'])
    coefficients = get_array(model.inverse_transform(V), (n, n),
                             'the inverse transform')
    want = V.dot(D)
    require(np.abs(coefficients - want).max() <=
            1e-9 * (1 + float(np.abs(want).max())),
            'the inverse transform does not use the scaled archetypes')
    again = model.transform(data.copy())
    W2 = get_array(again, W.shape, 'the transformed data')
    fact.check_stochastic(W2, 1, 'the transformed weights')
    ctx.label(p['method'], p['kernel'], 'delta=%s' % p['delta'],
              'init=%s' % p['init'])
    ctx.mark(p['delta'] > 0 and np.abs(s - 1).max() > 1e-6)


def gen_weights(n, k):
    v = 1.0 + (np.arange(n * k) % 5).reshape(n, k)
    return v / v.sum(axis=1, keepdims=True)


def excess(K, W, D, delta):
    """Bounds for the possible improvement: one scale, everything."""
    StS = W.T.dot(W)
    s = D.sum(axis=1)
    G = 2 * (StS.dot(D) - W.T).dot(K)
    cost = cost_of(K, W, D)
    single = 0.0
    for i in range(len(D)):
        # cost(scale i times f) is a parabola in f
        slope = float(G[i].dot(D[i]))
        curve = float(StS[i, i] * D[i].dot(K).dot(D[i]))
        lo, hi = (1 - delta) / s[i] - 1, (1 + delta) / s[i] - 1
        best = lo if slope > 0 else hi
        if curve > 0:
            best = min(max(-slope / (2 * curve), lo), hi)
        single = max(single, -(slope * best + curve * best ** 2))
    low = G.min(axis=1)
    vertex = np.minimum((1 - delta) * low, (1 + delta) * low)
    gap = float((G * D).sum() - vertex.sum())
    return single, gap, cost


def check_optimal(p, ctx):
    delta = p['delta']
    for budget, tol in BUDGETS:
        K, model, data, W, D = run(p, max_iterations=budget)
        require(np.array_equal(W, p['weights']),
                'the fixed weights were changed')
        s = check_scales(D, delta)
        single, gap, cost = excess(K, W, D, delta)
        scale = 1e-6 + float(np.trace(K))
        if single <= tol * scale and gap <= 10 * tol * scale:
            break
    require(single <= tol * scale, 'changing one archetype scale improves '
            'the cost %r by %r (scales %r)', cost, single, s)
    require(gap <= 10 * tol * scale, 'the scaled archetypes are not optimal '
            'for the given weights: gap %r, cost %r', gap, cost)
    ctx.label(p['method'], p['kernel'], 'delta=%s' % delta,
              '%d iterations' % budget,
              'scale at bound' if np.any(np.abs(np.abs(s - 1) - delta) < 1e-9)
              else 'inner scales')
    ctx.mark(np.abs(s - 1).max() > 1e-6)


def weights_gap(K, W, D):
    KD = K.dot(D.T)
    return fact.simplex_gap(2 * (W.dot(D.dot(KD)) - KD), W, 1)


def check_weights(p, ctx):
    """Weights of new data for archetypes with fitted scales."""
    delta = p['delta']
    p = dict(p, fixed=['weights'])
    K = kernel_of(p['kernel'], p['new'])
    for budget, tol in ((100, 1e-5), (1000, 1e-4), (10000, 1e-3)):
        _, model, _, _, D = run(p, max_iterations=budget)
        s = check_scales(D, delta)
        data = K if p['method'] == 'kaa' else p['new']
        W = get_array(model.transform(data.copy()), (len(K), p['k']),
                      'the transformed data')
        fact.check_stochastic(W, 1, 'the transformed weights')
        gap, scale = weights_gap(K, W, D), 1e-6 + float(np.trace(K))
        if gap <= tol * scale:
            break
    else:
        h = np.linalg.eigvalsh(D.dot(K).dot(D.T))
        h = 2 * h[h > 1e-12 * h.max()]
        if h.size and 1e3 * h.min() < 0.1:
            ctx.label('too ill-conditioned')
            return
    require(gap <= tol * scale, 'the weights can be improved for the scaled '
            'archetypes (gap %r, scales %r)', gap, s)
    ctx.label(p['method'], p['kernel'], 'delta=%s' % delta,
              '%d iterations' % budget)
    ctx.mark(p['k'] > 1 and np.abs(s - 1).max() > 1e-6)


@st.composite
def weights_cases(draw, tier):
    p = draw(cases(tier, True))
    p['new'] = 1.5 * gen.draw_normal(draw, p['X'].shape)
    return p


SUBS = [Sub('weights', lambda tier: weights_cases(tier), check_weights, 300,
            8000),
        Sub('scales', lambda tier: cases(tier, False), check_fit, 1200, 24000),
        Sub('optimal', lambda tier: cases(tier, True), check_optimal, 400,
            10000)]
