"""P13: initialisation options are honoured."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, get_array, require

RULE = ('The initial guess is exposed by fits that take no step (no factor '
        'updated, or a line search that rejects every step), and by exact '
        'solutions which a fit must not leave. FurthestSum starts are judged '
        'by the greedy rule on the Euclidean distances, for every number of '
        'extra steps up to the requested one. Non-trivial: two or more '
        'components, and for FurthestSum a real choice.')
ASSUMPTIONS = ['A fit that updates neither factor and is not given a custom '
               'guess draws both factors. With gamma=1e30 the line search '
               'only takes steps below 1e-12.']

ALL = ('aa', 'kaa', 'gpnh', 'mtd', 'crom')


def base(draw, method, n, d, k):
    p = {'method': method, 'k': k, 'seed': draw(gen.seeds()), 'tolerance': 0.0,
         'max_iterations': 1, 'fixed': []}
    if method in fact.MTD_LIKE:
        p['lags'] = draw(gen.lag_sets(2))
    if method == 'mtd':
        p['epsilon_weights'] = draw(st.sampled_from([0.0, 0.5]))
    if method not in fact.AA_LIKE:
        p['epsilon_states'] = draw(st.sampled_from([0.0, 0.5]))
    return p


# ------------------------------------------------------- furthest sum

@st.composite
def fs_cases(draw):
    method = draw(st.sampled_from(ALL))
    if draw(st.integers(0, 5)) == 5:
        # Points for which the extra steps settle late.
        k = draw(st.integers(2, 5))
        X, start = gen.slow_selection(draw, k)
        p = base(draw, method, X.shape[0], X.shape[1], k)
        p.update(X=X, kind='slow', init='furthest_sum')
        fs = {'start_index': start}
        if draw(st.booleans()):
            fs['n_extra_steps'] = draw(st.integers(4, 25))
        return {'p': p, 'fs': fs, 'array': False}
    k = draw(gen.sizes(1, 4, 8))
    n = draw(gen.sizes(max(k, 3), 9, 30, rare=8, huge=140))
    d = draw(gen.sizes(1, 3, 7))
    p = base(draw, method, n, d, k)
    p['X'], p['kind'] = gen.draw_data(draw, n, d, kinds=(
        'normal', 'generic', 'grid', 'dup', 'convex', 'outlier'))
    # None means furthest_sum for archetypal analysis only.
    p['init'] = draw(st.sampled_from(['furthest_sum', None])) \
        if method in fact.AA_LIKE else 'furthest_sum'
    perm = np.random.RandomState(draw(gen.seeds())).permutation(n).tolist()
    fs = {}
    if draw(st.booleans()):
        fs['start_index'] = perm[0]
    if draw(st.booleans()):
        fs['exclude'] = perm[1:1 + draw(st.integers(0, n - k))]
    if draw(st.booleans()):
        fs['n_extra_steps'] = draw(gen.sizes(0, 6, 25))
    return {'p': p, 'fs': fs, 'array': draw(st.booleans())}


def initial_dictionary(p, fs):
    """The dictionary a fit starts from."""
    q = dict(p, fs_options=fs, gamma=1e30)
    if p['method'] == 'mtd':
        # MTD convex coding has to be given factors that are not updated.
        f = fact.run(q)
    else:
        q['fixed'] = ['dictionary', 'weights']
        f = fact.run(q)
    fact.check_stochastic(f.W, 1, 'initial weights')
    return f.D


def to_selection(p, D, n):
    X = p['X']
    sel = []
    for row in D:
        if p['method'] in fact.AA_LIKE:
            i = int(np.argmax(row))
            e = np.zeros(n)
            e[i] = 1
            require(float(np.abs(row - e).max()) < 1e-9,
                    'initial archetype %r is not a sample', row.tolist())
            sel.append([i])
        else:
            err = np.abs(X - row).max(axis=1)
            hits = np.flatnonzero(err <= 1e-9 * (1 + np.abs(X).max()))
            require(hits.size > 0, 'initial state %r is not a sample',
                    row.tolist())
            sel.append(hits.tolist())
    return sel


def disambiguate(sel, options):
    """Indices for states which may match several coincident samples."""
    out = []
    for hits in sel:
        free = [i for i in hits if i not in out and i in options]
        require(free, 'a sample was selected repeatedly or although excluded')
        out.append(free[0])
    return out


def check_fs(case, ctx):
    p, fs = case['p'], dict(case['fs'])
    X = p['X']
    n, k = X.shape[0], p['k']
    extra = fs.get('n_extra_steps', 10)
    exclude = fs.get('exclude', [])
    if case['array'] and 'exclude' in fs:
        fs['exclude'] = np.array(exclude, dtype='i8')
    allowed = [i for i in range(n) if i not in exclude]
    D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
    # Distances from the Gram matrix have errors of about sqrt(eps).
    slack = 1e-6 * (1 + np.abs(X).max())

    def select(steps):
        o = dict(fs, n_extra_steps=steps)
        if steps == extra and 'n_extra_steps' not in case['fs']:
            del o['n_extra_steps']
        return to_selection(p, initial_dictionary(p, o), n)

    def judge(chosen, hits, what):
        cand = [c for c in allowed if c not in chosen]
        sums = {c: float(D[c, chosen].sum()) for c in cand}
        best = max(sums.values())
        ok = [h for h in hits if h in sums and sums[h] >= best -
              slack * (1 + len(chosen))]
        require(ok, '%s: the initial state (sample %r) is not the furthest '
                'available sample', what, hits)
        return min(sums.values()) < best - slack * (1 + len(chosen))

    choice = False
    first = select(0)
    if 'start_index' in fs:
        require(fs['start_index'] in first[0],
                'the first initial state is not the start index')
    current = disambiguate(first, allowed)
    for i in range(1, k):
        choice |= judge(current[:i], [current[i]] + first[i],
                        'selection %d' % i)
    for step in range(extra):
        new = select(step + 1)
        pos = step % k
        others = [c for i, c in enumerate(current) if i != pos]
        for i in range(k):
            if i != pos:
                require(current[i] in new[i], 'extra step %d changed state %d',
                        step, i)
        choice |= judge(others, new[pos], 'extra step %d' % step)
        free = [h for h in new[pos] if h not in others and h in allowed]
        require(free, 'a sample was selected repeatedly or although excluded')
        current = [c if i != pos else free[0] for i, c in enumerate(current)]
    ctx.label(p['method'], p['kind'], 'init=%s' % p['init'], *sorted(fs))
    ctx.mark(k > 1 and choice)


# -------------------------------------------------------------- random

@st.composite
def random_cases(draw):
    method = draw(st.sampled_from(ALL))
    k = draw(gen.sizes(1, 4, 8))
    n = draw(gen.sizes(max(k, 3), 8, 30, rare=8, huge=140))
    d = draw(gen.sizes(1, 3, 7))
    p = base(draw, method, n, d, k)
    p['X'], p['kind'] = gen.draw_data(draw, n, d)
    p['init'] = 'random' if method in fact.AA_LIKE else \
        draw(st.sampled_from(['random', None]))
    return {'p': p, 'other': draw(gen.seeds())}


def check_random(case, ctx):
    p = case['p']
    n, k = p['X'].shape[0], p['k']

    def start(seed, init):
        q = dict(p, seed=seed, init=init, gamma=1e30)
        if p['method'] != 'mtd':
            q['fixed'] = ['dictionary', 'weights']
        f = fact.run(q)
        fact.check_stochastic(f.W, 1, 'initial weights')
        if p['method'] in fact.AA_LIKE:
            fact.check_stochastic(f.D, 1, 'initial dictionary rows')
        if p['method'] in fact.MTD_LIKE:
            fact.check_stochastic(f.order_weights[None], 1, 'order weights')
            fact.check_stochastic(f.transitions, 1, 'transition matrices')
        return f

    a = start(p['seed'], p['init'])
    b = start(case['other'], p['init'])
    if p['seed'] != case['other']:
        if k > 1:
            require(np.abs(a.W - b.W).max() > 1e-9,
                    'initial weights do not depend on the seed')
        if p['method'] in fact.AA_LIKE and n > 1:
            require(np.abs(a.D - b.D).max() > 1e-9,
                    'initial dictionary does not depend on the seed')
        elif p['method'] not in fact.AA_LIKE and \
                np.abs(p['X']).max() > 1e-3:
            require(np.abs(a.D - b.D).max() > 1e-12,
                    'initial dictionary does not depend on the seed')
    if p['init'] is None:
        c = start(p['seed'], 'random')
        require(np.array_equal(a.W, c.W) and np.array_equal(a.D, c.D),
                "init=None differs from init='random'")
    elif p['method'] in fact.AA_LIKE:
        c = start(p['seed'], None)
        e = start(p['seed'], 'furthest_sum')
        require(np.array_equal(c.W, e.W) and np.array_equal(c.D, e.D),
                "init=None differs from init='furthest_sum'")
    ctx.label(p['method'], p['kind'], 'init=%s' % p['init'])
    ctx.mark(k > 1 and p['seed'] != case['other'])


# -------------------------------------------------------------- custom

@st.composite
def custom_cases(draw):
    p = draw(fact.problems(methods=ALL, inits=('custom',), n=(3, 8),
                           fixed=False, scale=draw(st.booleans())))
    n, k = p['X'].shape[0], p['k']
    # An exact start: the data are the combinations the guess describes.
    W = gen.stochastic_rows(draw, (n, k), 'seeded')
    if p['method'] in fact.AA_LIKE:
        sel = np.random.RandomState(p['seed']).permutation(n)[:k]
        C = np.zeros((k, n))
        C[np.arange(k), sel] = 1
        W[sel] = np.eye(k)
        exact = {'dictionary': C, 'weights': W,
                 'X': W.dot(gen.draw_normal(draw, (k, p['X'].shape[1])))}
    else:
        D = gen.draw_normal(draw, (k, p['X'].shape[1]))
        exact = {'dictionary': D, 'weights': W, 'X': W.dot(D)}
    return {'p': p, 'exact': exact, 'new': gen.draw_normal(draw, p['X'].shape)}


def check_custom(case, ctx):
    p = case['p']
    # The guess is the starting point.
    names = ['dictionary', 'weights'] + \
        (['parameters'] if p['method'] == 'mtd' else [])
    q = dict(p, fixed=names)
    keep = copy.deepcopy(q)
    f = fact.run(q)
    for name in ('X', 'dictionary', 'weights', 'order_weights',
                 'transition_matrices'):
        if name in keep:
            require(np.array_equal(keep[name], q[name]),
                    '%s was modified', name)
    require(np.array_equal(f.W, p['weights']),
            'the custom weights are not the starting point')
    require(np.array_equal(f.D, p['dictionary']),
            'the custom dictionary is not the starting point')
    if p['method'] == 'mtd':
        require(np.array_equal(f.order_weights, p['order_weights']) and
                np.array_equal(f.transitions, p['transition_matrices']),
                'the custom parameters are not the starting point')
    value = fact.objective(p, p['weights'], p['dictionary'],
                           p.get('order_weights'),
                           p.get('transition_matrices'))
    sc = fact.cost_scale(p, p['weights'], p['dictionary'])
    require(abs(f.cost - value) <= 1e-9 * sc + 1e-300,
            'the cost of the custom start is %r instead of %r', f.cost, value)
    # An exact solution is not left.
    e = dict(p, **case['exact'])
    e.update({'delta': 0.0, 'epsilon_states': 0.0, 'epsilon_weights': 0.0,
              'max_iterations': 3})
    g = fact.run(e)
    require(np.abs(g.W - e['weights']).max() < 1e-6,
            'the fit left an exact custom solution (weights)')
    require(np.abs(g.D - e['dictionary']).max() < 1e-6,
            'the fit left an exact custom solution (dictionary)')
    # The model can still transform and predict new data.
    new = case['new']
    arg = new.dot(new.T) if p['method'] == 'kaa' else new
    w = get_array(f.model.transform(arg), f.W.shape, 'weights')
    fact.check_stochastic(w, 1, 'weights after transform')
    if p['method'] in fact.MTD_LIKE:
        y = f.model.predict(arg, horizon=2)
        m = max(p['lags'])
        require(y.shape == new.shape, 'prediction of shape %r', y.shape)
        require(bool(np.isfinite(y[m - 1:]).all()), 'invalid predictions')
    ctx.label(p['method'], p['kind'])
    ctx.mark(p['k'] > 1)


SUBS = [Sub('furthest_sum', lambda tier: fs_cases(), check_fs, 1200, 30000),
        Sub('random', lambda tier: random_cases(), check_random, 1200, 20000),
        Sub('custom', lambda tier: custom_cases(), check_custom, 1500, 30000)]
