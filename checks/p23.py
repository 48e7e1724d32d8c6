"""P23: FEM-BV k-means alternates exact updates."""
import numpy as np
from hypothesis import strategies as st

from checks import femb
from pbt import gen
from pbt.core import Sub, get_array, require
from reor.fembv_kmeans import FEMBVKMeans

RULE = ('The iterates are obtained from fits with budgets 1, 2, ..., K. '
        'Each centroid must be the mean of the data weighted by the previous '
        'affiliations, the affiliations must be admissible and optimal '
        '(independent linear programme) for the squared distances to the new '
        'centroids, the cost their weighted total, and not larger than that '
        'of the previous iterate. Then new data are transformed. Starts of '
        'which only a part is given, and fits with one or both of the '
        'factors held fixed, are judged separately, as are the random '
        'starts: different samples of the series. Non-trivial: '
        'two or more components with a second iterate or a custom start.')
ASSUMPTIONS = ['Components with affiliations summing to less than 1e-3 are '
               'not judged unless the sum is zero, when they stay.']


def weighted_means(X, G, old):
    out = []
    for j in range(G.shape[1]):
        total = G[:, j].sum()
        if total == 0:
            out.append(old[j] if old is not None else None)
        elif total < 1e-3:
            out.append(None)
        else:
            out.append(sum(g * x for g, x in zip(G[:, j], X)) / total)
    return out


def check(case, ctx):
    X, bound = case['X'].astype('f8'), case['max_tv_norm']
    size = case['scale'] + float(np.abs(X).max())
    unit = femb.unit(case)
    previous = None
    G, Theta = case.get('weights'), case.get('Theta')
    for i in range(1, case['max_iterations'] + 1):
        r = femb.run(case, max_iterations=i)
        if G is not None:
            for j, m in enumerate(weighted_means(X, G, Theta)):
                require(m is None or
                        np.abs(r.Theta[j] - m).max() <= 1e-9 * size * 1e2,
                        'in iteration %d, centroid %d is %r instead of the '
                        'weighted mean %r', i, j, r.Theta[j], m)
        D = femb.centroid_distances(X, r.Theta)
        require(abs(r.cost - float((r.G * D).sum())) <=
                1e-9 * (unit + D.sum()),
                'cost_ is %r instead of %r', r.cost, float((r.G * D).sum()))
        femb.check_feasible(r.G, bound)
        femb.check_optimal(r.G, D, bound, unit=unit)
        require(previous is None or
                r.cost <= previous + 1e-5 * femb.loose() *
                (unit + D.sum()),
                'the cost rises from %r to %r in iteration %d', previous,
                r.cost, i)
        previous, G, Theta = r.cost, r.G, r.Theta
    kept = r.model.Theta.copy()
    H = femb.transform(case, r.model)
    femb.check_feasible(H, bound, 'the transformed affiliations')
    D = femb.centroid_distances(case['Y'], r.Theta)
    femb.check_optimal(H, D, bound, 'the transformed affiliations', unit)
    require(np.array_equal(r.model.Theta, kept),
            'transform changes the centroids')
    femb.labels(case, ctx)
    ctx.label('iterations=%d' % case['max_iterations'],
              'empty component' if (G.sum(axis=0) == 0).any() else
              'all components used')
    ctx.mark(case['k'] > 1 and (case['max_iterations'] > 1 or case['custom']))


def check_guard(case, ctx):
    femb.check_guard(case)
    femb.labels(case, ctx)
    ctx.mark(case['k'] > 1)


def refit(c, r, G):
    X = c['X'].astype('f8')
    size = c['scale'] + float(np.abs(X).max())
    for j, m in enumerate(weighted_means(X, G, None)):
        require(m is None or np.abs(r.Theta[j] - m).max() <= 1e-7 * size,
                'centroid %d is %r instead of the weighted mean %r', j,
                r.Theta[j], m)


def check_held(case, ctx):
    femb.check_held(case, lambda c: {'Theta': c['Theta']}, refit, ctx)


@st.composite
def start_cases(draw):
    k = draw(st.integers(1, 6))
    n = draw(gen.sizes(k, k + 8, 40))
    d = draw(st.integers(1, 3))
    X = gen.draw_grid(draw, (n, d)) if draw(st.booleans()) else \
        gen.draw_normal(draw, (n, d))
    if draw(st.booleans()):
        X = X.astype('i8')
    return {'X': X, 'k': k, 'seed': draw(gen.seeds()),
            'init': draw(st.sampled_from([None, 'random'])),
            'max_tv_norm': draw(st.sampled_from([None, 1.0]))}


def check_start(case, ctx):
    """Random starts are different samples of the series."""
    X, k = case['X'], case['k']
    model = FEMBVKMeans(k, init=case['init'], random_state=case['seed'],
                        max_tv_norm=case['max_tv_norm'], max_iterations=1,
                        weights_solver_kwargs={'solver': 'HIGHS'})
    model.fit(X.copy(), update_parameters=False)
    left = [tuple(x) for x in X.tolist()]
    for row in get_array(model.Theta, (k, X.shape[1]), 'Theta').tolist():
        require(tuple(row) in left, 'the initial centroid %r is not (another) '
                'sample of the series', row)
        left.remove(tuple(row))
    ctx.mark(k > 1)


SUBS = [
    Sub('start', lambda tier: start_cases(), check_start, 400, 8000),
    Sub('alternation', lambda tier: femb.cases(
        models=('kmeans',), iterations=(1, 5),
        large=40 if tier == 'thorough' else 25), check, 700, 14000),
    Sub('guard', lambda tier: femb.cases(models=('kmeans',),
                                         iterations=(1, 1)),
        check_guard, 300, 6000),
    Sub('held', lambda tier: femb.held_cases('kmeans'), check_held, 400,
        8000)]
