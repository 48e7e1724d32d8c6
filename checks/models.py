"""A uniform handle on every estimator of the package.

A case is a plain dict with a key 'est'.  `make` builds the model, `fit` fits
it, `operate` performs a named operation, and `fitted` returns the parameters
documented as being fitted.
"""
import numpy as np
from hypothesis import strategies as st
from sklearn.cluster import KMeans
from sklearn.neighbors import KNeighborsClassifier

from checks import fact
from pbt import gen
from reor.crom import KMeansMarkovCROM
from reor.fembv_kmeans import FEMBVKMeans
from reor.fembv_varx import FEMBVVARX
from reor.pwvarx import ClusterPWVARX

FACT = ('aa', 'kaa', 'gpnh', 'mtd', 'crom')
FEMBV = ('fembv-kmeans', 'fembv-varx')
OTHER = ('kmeans-crom', 'pwvarx')
ALL = FACT + FEMBV + OTHER


@st.composite
def cases(draw, ests=ALL, inits=('random', 'furthest_sum', None, 'custom'),
          iterations=(1, 3)):
    est = draw(st.sampled_from(ests))
    if est in FACT:
        p = draw(fact.problems(
            methods=(est,), n=(3, 8), d=(1, 3), k=(1, 3), inits=inits,
            layouts=False,
            kinds=('normal', 'generic', 'convex', 'outlier'),
            iterations=iterations, weights_kind='seeded'))
        n = p['X'].shape[0]
        n_new = n if est in fact.AA_LIKE else \
            n + draw(st.integers(0, 4))
        return {'est': est, 'p': p, 'k': p['k'], 'seed': p['seed'],
                'X': p['X'],
                'Y': gen.draw_normal(draw, (n_new, p['X'].shape[1])),
                'scaled': est in fact.AA_LIKE and draw(st.booleans())}
    d = draw(st.integers(1, 3))
    c = {'est': est, 'seed': draw(gen.seeds()), 'k': draw(st.integers(1, 3))}
    big = draw(st.integers(0, 11)) == 11
    more = 20 if big else 0
    if big:
        d, c['k'] = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if est in FEMBV:
        n = draw(st.integers(6 + more, 12 + more))
        few = draw(st.integers(0, 4)) == 4
        c.update(max_tv_norm=draw(st.sampled_from([None, 0.5, 2.0])),
                 max_iterations=draw(st.integers(*iterations)),
                 tolerance=draw(st.sampled_from([0.0, 1e-3])),
                 custom=draw(st.booleans()),
                 keep=draw(st.sampled_from([[], [], [], ['weights'],
                                            ['parameters']])))
        memory = 0
        if est == 'fembv-varx':
            memory = draw(st.integers(0, 2))
            if draw(st.booleans()):
                memory = [draw(st.integers(0, 2)) for _ in range(c['k'])]
            c['memory'] = memory
            if draw(st.booleans()):
                c['u'] = gen.draw_normal(draw, (n, draw(st.integers(1, 2))))
        m = int(np.max(memory))
        if few:
            # About as many samples as components.
            n = m + max(2, c['k'] + draw(st.integers(0, 1)))
            if 'u' in c:
                c['u'] = gen.draw_normal(draw, (n, c['u'].shape[1]))
        c['X'] = gen.draw_normal(draw, (n, d))
        n_new = n + draw(st.integers(0, 3))
        c['Y'] = gen.draw_normal(draw, (n_new, d))
        if 'u' in c:
            c['v'] = gen.draw_normal(draw, (n_new, c['u'].shape[1]))
        if c['custom']:
            c['weights'] = gen.stochastic_rows(draw, (n - m, c['k']), 'seeded')
            if est == 'fembv-kmeans':
                c['Theta'] = gen.draw_normal(draw, (c['k'], d))
            else:
                par = {'mu': gen.draw_normal(draw, (c['k'], d))}
                if m > 0:
                    par['A'] = 0.3 * gen.draw_normal(draw, (c['k'], m, d, d))
                if 'u' in c:
                    par['B0'] = gen.draw_normal(
                        draw, (c['k'], d, c['u'].shape[1]))
                c['parameters'] = par
    elif est == 'kmeans-crom':
        n = draw(st.integers(6 + more, 15 + 2 * more))
        c['X'] = gen.draw_normal(draw, (n, d))
        c['Y'] = gen.draw_normal(draw, (draw(st.integers(1, 9)), d))
        c['n_init'] = draw(st.integers(1, 2))
        if draw(st.booleans()):
            c['w'] = 0.5 + np.abs(gen.draw_normal(draw, (n,)))
    else:
        n = draw(st.integers(16 + more, 30 + 2 * more))
        c['k'] = draw(st.integers(2, 5 if big else 3))
        c['X'] = gen.draw_normal(draw, (n, d))
        c['Y'] = gen.draw_normal(draw, (n, d))
        c['order'] = draw(st.integers(1, 4 if big else 2))
        c['s'] = draw(st.integers(0, 3 if big else 2))
        if c['s']:
            c['u'] = gen.draw_normal(draw, (n, draw(st.integers(1, 2))))
            c['v'] = gen.draw_normal(draw, c['u'].shape)
        c['trend'] = draw(st.booleans())
        c['knn'] = draw(st.booleans())
        if d == 1 and draw(st.booleans()):
            c['X'], c['Y'] = c['X'][:, 0].copy(), c['Y'][:, 0].copy()
    return c


def make(c, random_state, verbose=0):
    est = c['est']
    if est in FACT:
        return fact.build(c['p'], seed=random_state, verbose=verbose)
    if est in FEMBV:
        kw = dict(max_tv_norm=c['max_tv_norm'], tolerance=c['tolerance'],
                  max_iterations=c['max_iterations'], verbose=verbose,
                  random_state=random_state,
                  init=c.get('init_name',
                             'custom' if c['custom'] else 'random'),
                  weights_solver_kwargs={'solver': 'HIGHS'})
        if est == 'fembv-kmeans':
            return FEMBVKMeans(c['k'], **kw)
        m = c['memory']
        return FEMBVVARX(c['k'], memory=list(m) if isinstance(m, list)
                         else m, **kw)
    if est == 'kmeans-crom':
        return KMeansMarkovCROM(c['k'], n_init=c['n_init'], verbose=verbose,
                                random_state=random_state)
    return ClusterPWVARX(
        c['k'], p=c['order'], s=c['s'], include_trend=c['trend'],
        random_state=random_state, verbose=verbose,
        clusterer=KMeans(2, n_init=1, random_state=0)
        if c.get('own_clusterer') else None,
        classifier=KNeighborsClassifier(1) if c['knn'] else None)


def new_data(c, name):
    """Data of a call: 'X' to fit, 'Y' otherwise; fresh arrays."""
    x = c[name].copy()
    if c['est'] == 'kaa':
        x = x.dot(x.T)
    return x


def fit_arguments(c):
    """Arrays passed to fit, as (data, keyword arguments)."""
    est = c['est']
    x = new_data(c, 'X')
    if est in FACT:
        return x, fact.fit_kwargs(c['p'])
    kw = {}
    if est in FEMBV:
        for name in c['keep']:
            kw['update_' + name] = False
        if 'u' in c:
            kw['external_factors'] = c['u'].copy()
        if c['custom']:
            kw['weights'] = c['weights'].copy()
            if est == 'fembv-kmeans':
                kw['parameters'] = c['Theta'].copy()
            else:
                kw['parameters'] = {k: v.copy() for k, v in
                                    c['parameters'].items()}
    elif est == 'kmeans-crom':
        if 'w' in c:
            kw['sample_weight'] = c['w'].copy()
    elif 'u' in c:
        kw['exog'] = c['u'].copy()
    return x, kw


def transform_arguments(c, name='Y'):
    x = new_data(c, name)
    other = {'X': 'u', 'Y': 'v'}[name]
    kw = {}
    if 'u' in c:
        kw['external_factors' if c['est'] == 'fembv-varx' else 'exog'] = \
            c[other].copy()
    return x, kw


FITTED = {
    'aa': ('dictionary_', 'cost_'), 'kaa': ('dictionary_', 'cost_'),
    'gpnh': ('dictionary_', 'cost_'),
    'mtd': ('dictionary_', 'cost_', 'order_weights', 'transition_matrices'),
    'crom': ('dictionary_', 'cost_', 'order_weights', 'transition_matrices'),
    'fembv-kmeans': ('Theta', 'cost_'),
    'fembv-varx': ('mu', 'A', 'B0', 'cost_'),
    'kmeans-crom': ('cluster_centers_', 'labels_', 'inertia_',
                    'transition_matrix_'),
    'pwvarx': ('mu', 'A', 'B', 'Sigma_u', 'residuals')}


def fitted(c, model):
    """References (not copies) to the fitted parameters."""
    return {name: getattr(model, name) for name in FITTED[c['est']]}


def snapshot(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return x


def same(a, b):
    """Bitwise equality (NaN equals NaN)."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(same(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def close(a, b, tol):
    if isinstance(a, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8')
    if a.shape != b.shape:
        return False
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    m = np.isfinite(a)
    if not m.any():
        return True
    scale = 1 + float(np.abs(b[m]).max())
    return bool((np.abs(a[m] - b[m]) <= tol * scale).all())
