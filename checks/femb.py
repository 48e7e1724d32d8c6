"""Shared pieces for the FEM-BV models: cases, distances, reference optimum."""
import cvxpy
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from scipy.optimize import linprog

from pbt import core, gen
from pbt.core import get_array, get_number, require
from reor.fembv_kmeans import FEMBVKMeans
from reor.fembv_varx import FEMBVVARX

# Absolute accuracy of an affiliation; the default solver is an interior point
# method with tolerances around 1e-8.
TOL = 1e-5

# It reports 'optimal_inaccurate' (and cvxpy warns) when it reached only its
# reduced tolerances, up to 1e-4.
INACCURATE = []
_solve = cvxpy.Problem.solve


def _recording_solve(self, *args, **kwargs):
    result = _solve(self, *args, **kwargs)
    if self.status == cvxpy.OPTIMAL_INACCURATE:
        INACCURATE.append(self.status)
    return result


cvxpy.Problem.solve = _recording_solve
core.CASE_HOOKS.append(INACCURATE.clear)


def loose():
    """Factor for tolerances after a solution reported as inaccurate."""
    return 30.0 if INACCURATE else 1.0


def optimum(D, bound):
    """Smallest affiliation-weighted total distance."""
    if bound is None or len(D) == 1:
        return float(D.min(axis=1).sum())
    return solution(D, bound)[0]


def ambiguous(D, bound):
    """Whether rounding errors may select the optimal affiliations."""
    n, k = D.shape
    noise = 1e-8 * float(np.abs(D).max())
    if k == 1 or noise == 0:
        return k > 1
    if bound is None or n == 1:
        order = np.sort(D, axis=1)
        return bool((order[:, 1] - order[:, 0] <= noise).any())
    best = None
    for t in range(5):
        G = solution(D + noise * np.random.RandomState(t).uniform(
            0, 1, size=D.shape), bound)[1]
        if best is not None and np.abs(G - best).max() > 1e-6:
            return True
        best = G
    return False


def solution(D, bound):
    """Optimal value and affiliations (own formulation).

    Component-major variables: affiliations of component i at time t at
    i * n + t, followed by increases and decreases.
    """
    n, k = D.shape
    top = 1e-6 * float(np.abs(D).max()) or 1.0
    m = n - 1
    # Gamma[t + 1] - Gamma[t] = up - down
    diff = sp.diags([-np.ones(m), np.ones(m)], [0, 1], shape=(m, n))
    balance = sp.hstack([sp.kron(sp.eye(k), diff),
                         -sp.eye(k * m), sp.eye(k * m)])
    total = sp.hstack([sp.kron(np.ones((1, k)), sp.eye(n)),
                       sp.csr_matrix((n, 2 * k * m))])
    variation = sp.hstack([sp.csr_matrix((k, k * n)),
                           sp.kron(sp.eye(k), np.ones((1, m))),
                           sp.kron(sp.eye(k), np.ones((1, m)))])
    res = linprog(np.concatenate([D.T.ravel() / top, np.zeros(2 * k * m)]),
                  A_ub=variation.tocsr(), b_ub=np.full(k, float(bound)),
                  A_eq=sp.vstack([balance, total]).tocsr(),
                  b_eq=np.concatenate([np.zeros(k * m), np.ones(n)]),
                  bounds=(0, None), method='highs')
    if res.status != 0:
        raise RuntimeError('reference programme: ' + res.message)
    return float(res.fun) * top, res.x[:k * n].reshape(k, n).T


def variation(G):
    return np.abs(np.diff(G, axis=0)).sum(axis=0)


def check_feasible(G, bound, what='the affiliations'):
    tol = TOL * loose()
    require(bool((G >= -tol).all()), '%s have a negative entry %r', what,
            float(G.min()))
    s = G.sum(axis=1)
    require(bool((np.abs(s - 1) <= tol).all()), '%s sum to %r', what,
            float(s[np.argmax(np.abs(s - 1))]))
    if bound is not None:
        v = variation(G)
        require(bool((v <= bound + tol * (1 + len(G))).all()),
                '%s have total variation %r, the bound is %r', what,
                float(v.max()), bound)
        if bound == 0:
            require(bool((np.abs(G - G[0]) <= tol * (1 + len(G))).all()),
                    '%s vary although the bound is zero', what)
    if G.shape[1] == 1:
        require(bool((np.abs(G - 1) <= tol).all()),
                '%s of a single component are not one', what)


def unit(c):
    """The size of squared differences of the data of a case."""
    return c.get('scale', 1.0) ** 2


def check_optimal(G, D, bound, what='the affiliations', unit=1.0):
    """G attains the smallest weighted distance; returns that value.

    Distances below 1e-12 units are rounding errors.
    """
    best = optimum(D, bound)
    value = float((G * D).sum())
    slack = (TOL * loose() * float(np.abs(D).sum(axis=1).max()) *
             (1 + len(D) / 10) +
             1e-12 * unit * (1 + len(D)))
    require(value <= best + slack, '%s have the weighted distance %r, the '
            'smallest admissible one is %r (bound %r)', what, value, best,
            bound)
    return best


# -------------------------------------------------------- distances

def centroid_distances(X, Theta):
    n, k = X.shape[0], Theta.shape[0]
    D = np.zeros((n, k))
    for t in range(n):
        for j in range(k):
            r = X[t] - Theta[j]
            D[t, j] = float((r * r).sum())
    return D


def lengths(memory, k):
    return [int(m) for m in memory] if isinstance(memory, (list, tuple)) \
        else [int(memory)] * k


def varx_residuals(X, u, mu, A, B0, memory, j, start):
    """Residuals of component j for the samples from `start`."""
    out = []
    for t in range(start, X.shape[0]):
        x = mu[j].copy()
        for l in range(memory[j]):
            x = x + A[j, l].dot(X[t - l - 1])
        if u is not None:
            x = x + B0[j].dot(u[t])
        out.append(X[t] - x)
    return np.array(out)


def varx_distances(X, u, mu, A, B0, memory):
    k, start = mu.shape[0], max(memory)
    D = np.zeros((X.shape[0] - start, k))
    for j in range(k):
        r = varx_residuals(X, u, mu, A, B0, memory, j, start)
        D[:, j] = (r * r).sum(axis=1)
    return D


# ------------------------------------------------------------ cases

def bounds(draw):
    if draw(st.integers(0, 4)) == 4:
        # Anything, also close to round values.
        near = draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0]))
        return round(near + draw(st.floats(0.0, 1.0)) *
                     draw(st.sampled_from([0.05, 1.0])), 4)
    return draw(st.sampled_from([None, None, 0.0, 0.25, 1.0, 1.0, 2.0, 3.0,
                                 5.5, 1000.0, 0]))


def regimes(draw, n, d, k):
    """Series switching between k states, with noise."""
    means = 2 * gen.draw_normal(draw, (k, d))
    pos = np.sort(np.array(draw(st.lists(st.integers(1, max(1, n - 1)),
                                         max_size=3)), dtype=int))
    state = np.searchsorted(pos, np.arange(n), side='right') % k
    return means[state] + draw(st.sampled_from([0.1, 0.5])) * \
        gen.draw_normal(draw, (n, d))


@st.composite
def cases(draw, models=('kmeans', 'varx'), n=(4, 14), large=None,
          iterations=(1, 4), custom=None, solvers=('HIGHS', 'HIGHS', None),
          kinds=('normal', 'regimes', 'regimes', 'grid')):
    model = draw(st.sampled_from(models))
    k = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
    d = draw(st.integers(1, 3))
    big = draw(st.integers(0, 11)) == 11
    if big:
        k, d = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    c = {'model': model, 'k': k, 'max_tv_norm': bounds(draw),
         'seed': draw(gen.seeds()),
         'max_iterations': draw(st.integers(*iterations)),
         'solver': draw(st.sampled_from(solvers))}
    memory = 0
    if model == 'varx':
        memory = draw(st.integers(0, 6 if big else 2))
        if draw(st.booleans()):
            memory = [draw(st.integers(0, 6 if big else 3)) for _ in range(k)]
        c['memory'] = memory
    m = int(np.max(memory))
    lo = max(n[0], k) + m
    if draw(st.integers(0, 7)) == 7:
        lo = max(2, k) + m
    nn = draw(gen.sizes(lo, max(lo, n[1] + (20 if big else 0)), large,
                        huge=110))
    kind = draw(st.sampled_from(kinds))
    if kind == 'regimes':
        X = regimes(draw, nn, d, k)
    elif kind == 'grid':
        X = gen.draw_grid(draw, (nn, d))
        if draw(st.booleans()):
            X = X.astype('i8')
    else:
        X = gen.draw_normal(draw, (nn, d))
    s = 1.0
    if X.dtype.kind == 'f' and draw(st.integers(0, 3)) == 3:
        s = draw(st.sampled_from([1e-10, 1e-6, 1e-4, 1e-2, 1e2, 1e5, 1e8]))
        X = s * X
    c['X'], c['kind'], c['scale'] = X, kind, s
    n_new = m + draw(st.integers(1, n[1] + 4))
    c['Y'] = s * gen.draw_normal(draw, (n_new, d))
    if model == 'varx' and draw(st.booleans()):
        e = draw(st.integers(1, 5 if big else 2))
        c['u'] = s * gen.draw_normal(draw, (nn, e))
        c['v'] = s * gen.draw_normal(draw, (n_new, e))
    c['layout'] = draw(st.sampled_from(gen.LAYOUTS + ('C', 'C')))
    c['custom'] = draw(st.booleans()) if custom is None else custom
    if c['custom']:
        c['weights'] = gen.stochastic_rows(draw, (nn - m, k))
        if model == 'kmeans':
            c['Theta'] = 2 * s * gen.draw_normal(draw, (k, d))
        else:
            c['mu'] = s * gen.draw_normal(draw, (k, d))
            if m > 0:
                A = 0.4 * gen.draw_normal(draw, (k, m, d, d))
                for j, mj in enumerate(lengths(memory, k)):
                    A[j, mj:] = 0
                c['A'] = A
            if 'u' in c:
                c['B0'] = gen.draw_normal(draw, (k, d, c['u'].shape[1]))
    return c


def build(c, **override):
    kw = {'max_tv_norm': c['max_tv_norm'], 'tolerance': 0.0,
          'max_iterations': c['max_iterations'], 'random_state': c['seed'],
          'init': 'custom' if c['custom'] else 'random'}
    if c['solver'] is not None:
        kw['weights_solver_kwargs'] = {'solver': c['solver']}
    kw.update(override)
    if c['model'] == 'kmeans':
        return FEMBVKMeans(c['k'], **kw)
    m = c['memory']
    return FEMBVVARX(c['k'], memory=list(m) if isinstance(m, list) else m,
                     **kw)


def fit_kwargs(c):
    kw = {}
    if 'u' in c:
        kw['external_factors'] = gen.layout(c['u'], c.get('layout', 'C'))
    if c['custom']:
        kw['weights'] = c['weights'].copy()
        if c['model'] == 'kmeans':
            kw['parameters'] = c['Theta'].copy()
        else:
            kw['parameters'] = {name: c[name].copy() for name in
                                ('mu', 'A', 'B0') if name in c}
    return kw


def check_guard(c):
    """The guard against cost increases must not abort or change a fit."""
    plain = run(c, max_iterations=6)
    tol = 1e-5 * loose() * (unit(c) + abs(plain.cost) +
                  float((c['X'].astype('f8') ** 2).sum()))
    plain = run(c, max_iterations=6, tolerance=tol)
    guarded = run(c, max_iterations=6, tolerance=tol,
                  require_monotonic_cost_decrease=True)
    require(np.array_equal(plain.G, guarded.G) and plain.cost == guarded.cost,
            'the fit with a guard against cost increases is different: cost '
            '%r instead of %r', guarded.cost, plain.cost)


class Result:
    """Validated results of a fit."""

    def __init__(self, c, model, G):
        k, d = c['k'], c['X'].shape[1]
        self.model = model
        self.memory = lengths(c.get('memory', 0), k)
        self.start = max(self.memory)
        n = c['X'].shape[0] - self.start
        self.G = get_array(G, (n, k), 'the affiliations')
        self.cost = get_number(model.cost_, 'cost_')
        require(np.array_equal(get_array(model.Gamma, (n, k), 'Gamma'),
                               self.G), 'Gamma is not what was returned')
        if c['model'] == 'kmeans':
            self.Theta = get_array(model.Theta, (k, d), 'Theta')
        else:
            self.mu = get_array(model.mu, (k, d), 'mu')
            self.A = None
            if self.start > 0:
                self.A = get_array(model.A, (k, self.start, d, d), 'A')
            else:
                require(model.A is None, 'A is %r without memory', model.A)
            self.B0 = None
            if 'u' in c:
                self.B0 = get_array(model.B0, (k, d, c['u'].shape[1]), 'B0')
            else:
                require(model.B0 is None, 'B0 is %r', model.B0)

    def distances(self, c, X, u):
        if c['model'] == 'kmeans':
            return centroid_distances(X, self.Theta)
        return varx_distances(X, u, self.mu, self.A, self.B0, self.memory)

    def parameters(self, c):
        return {'Theta': self.Theta} if c['model'] == 'kmeans' else \
            {'mu': self.mu, 'A': self.A, 'B0': self.B0}


def run(c, **override):
    model = build(c, **override)
    G = model.fit_transform(gen.layout(c['X'], c.get('layout', 'C')),
                            **fit_kwargs(c))
    return Result(c, model, G)


def transform(c, model):
    how = c.get('layout', 'C')
    kw = {'external_factors': gen.layout(c['v'], how)} if 'u' in c else {}
    n = c['Y'].shape[0] - max(lengths(c.get('memory', 0), c['k']))
    return get_array(model.transform(gen.layout(c['Y'], how), **kw), (n, c['k']),
                     'the transformed affiliations')


def labels(c, ctx):
    b = c['max_tv_norm']
    ctx.label(c['model'], 'k=%d' % c['k'], c['kind'],
              'no bound' if b is None else 'bound=%g' % b,
              'custom' if c['custom'] else 'random',
              'scale=%g' % c['scale'],
              'solver=%s' % c['solver'])


# ------------------------------------------------ factors held fixed

@st.composite
def held_cases(draw, model, n=(4, 14)):
    """Custom starts of which only a part is given, and factors held fixed."""
    c = draw(cases(models=(model,), n=n, custom=True, iterations=(1, 3)))
    c['given'] = draw(st.sampled_from(['both', 'weights', 'parameters',
                                       'none']))
    c['update_weights'] = draw(st.booleans())
    c['update_parameters'] = draw(st.booleans())
    c['named'] = draw(st.sampled_from(['constructor', 'call']))
    return c


def check_held(c, initial, refit, ctx):
    """`initial(c)`: starting parameters as a dict; `refit(c, r, G)` requires
    that the parameters of r are optimal for the affiliations G.
    """
    kw = fit_kwargs(c)
    if c['given'] in ('weights', 'none'):
        kw.pop('parameters')
    if c['given'] in ('parameters', 'none'):
        kw.pop('weights')
    if c['named'] == 'call':
        model = build(c, init='random')
        kw['init'] = 'custom'
    else:
        model = build(c, init='custom')
    if not c['update_weights']:
        kw['update_weights'] = False
    if not c['update_parameters']:
        kw['update_parameters'] = False
    G = model.fit_transform(gen.layout(c['X'], c['layout']), **kw)
    r = Result(c, model, G)
    X = c['X'].astype('f8')
    bound = c['max_tv_norm']
    if not c['update_weights']:
        if 'weights' in kw:
            require(np.array_equal(r.G, c['weights']), 'the given weights '
                    'were held fixed, but the affiliations are different')
        else:
            check_feasible(r.G, None, 'the initial affiliations')
    if not c['update_parameters'] and 'parameters' in kw:
        final = r.parameters(c)
        for name, value in initial(c).items():
            require((value is None) == (final[name] is None) and
                    (value is None or np.array_equal(final[name], value)),
                    'the given %s was held fixed, but is %r', name,
                    final[name])
    D = r.distances(c, X, c.get('u'))
    require(abs(r.cost - float((r.G * D).sum())) <= 1e-8 * (unit(c) + D.sum()),
            'cost_ is %r instead of %r', r.cost, float((r.G * D).sum()))
    if c['update_weights']:
        check_feasible(r.G, bound)
        check_optimal(r.G, D, bound, unit=unit(c))
    elif c['update_parameters']:
        refit(c, r, r.G)
    labels(c, ctx)
    ctx.label('given: ' + c['given'],
              'updated: ' + (' '.join(s for s in ('weights', 'parameters')
                                      if c['update_' + s]) or 'nothing'))
    ctx.mark(c['k'] > 1 and c['given'] != 'none')
