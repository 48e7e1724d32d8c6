"""Shared pieces for archetypal analysis, GPNH and MTD convex coding.

A problem is a plain dict (so that it can be saved and replayed).  Objectives,
gradients and recursions are written out naively here; nothing in this file
uses the code under test except `build` and `run`.
"""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Violation, get_array, get_number, require
from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
from reor.gpnh_convex_coding import GPNHConvexCoding
from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
from reor.mtd_convex_coding import MTDConvexCoding

METHODS = ('aa', 'kaa', 'gpnh', 'mtd')
AA_LIKE = ('aa', 'kaa')
MTD_LIKE = ('mtd', 'crom')


# ------------------------------------------------------------ generation

MUCH = (50, 64, 65, 100, 101, 128, 129, 150, 200, 250, 256, 257, 300)


@st.composite
def problems(draw, methods=METHODS, inits=('random', 'furthest_sum', None,
                                           'custom'),
             n=(3, 9), d=(1, 4), k=(1, 4), kinds=gen.MATRIX_KINDS,
             scale=False, fixed=True, eps=True, delta=True, max_lag=3,
             iterations=(1, 6), large_n=None, tolerance=0.0,
             weights_kind=None, big=9, huge=False, layouts=True):
    """`weights_kind` applies to all custom stochastic matrices.

    One case in `big` (none if zero) has larger dimensions; the data are
    passed in several memory layouts, and as integers if they are integers.
    With `huge`, one in three of the larger problems has much larger numbers
    of samples, features, components or lags.
    """
    method = draw(st.sampled_from(methods))
    max_lags, much = 3, []
    if big and draw(st.integers(0, big - 1)) == big - 1:
        n, d, k = (n[0], max(n[1], 40)), (d[0], 8), (k[0], 7)
        max_lag, max_lags = max(max_lag, 9), 5
        if huge == 'always' or huge and draw(st.integers(0, 2)) == 2:
            much = draw(st.sampled_from(['n', 'n', 'd', 'k', 'lags', 'n d',
                                         'n k', 'n lags', 'n d k lags']))
            much = much.split()
            if 'd' in much:
                d = (10, 40)
            if 'k' in much:
                k = (8, 14)
            if 'lags' in much:
                max_lag, max_lags = 25, 9
    kk = draw(st.sampled_from([v for v in range(k[0], k[1] + 1)
                               for _ in range(1 if v == 1 else 3)]))
    p = {'method': method, 'k': kk}
    n_lo = n[0]
    if method in MTD_LIKE:
        p['lags'] = draw(gen.lag_sets(max_lag, max_lags))
        n_lo = max(n_lo, max(p['lags']) + 1)
    init = draw(st.sampled_from(inits))
    if method in AA_LIKE or init == 'furthest_sum':
        n_lo = max(n_lo, kk)
    nn = draw(gen.sizes(n_lo, max(n_lo, n[1]), large_n)) \
        if 'n' not in much else max(n_lo, draw(st.sampled_from(MUCH)))
    dd = draw(st.integers(*d))
    x, kind = gen.draw_data(draw, nn, dd, kinds=kinds, scale=scale, k=kk)
    p.update({'X': x, 'kind': kind, 'init': init, 'seed': draw(gen.seeds()),
              'max_iterations': draw(st.integers(*iterations)),
              'tolerance': tolerance})
    if layouts:
        p['layout'] = draw(st.sampled_from(gen.LAYOUTS + ('C', 'int')))
    if method in ('gpnh', 'mtd', 'crom'):
        p['epsilon_states'] = draw(st.sampled_from(
            [0.0, 1e-3, 0.1, 1.0, 10.0])) if eps else 0.0
    if method == 'mtd':
        p['epsilon_weights'] = draw(st.sampled_from(
            [0.0, 1e-2, 0.3, 1.0, 30.0])) if eps else 0.0
    if method in AA_LIKE:
        p['delta'] = draw(st.sampled_from(
            [0.0, 0.0, 0.05, 0.3, 0.8])) if delta else 0.0
    names = ['dictionary', 'weights']
    patterns = [(), ('dictionary',), ('weights',)]
    if method == 'mtd':
        names.append('parameters')
        patterns += [('parameters',), ('dictionary', 'parameters'),
                     ('dictionary', 'weights'), ('parameters', 'weights')]
    elif init == 'custom':
        patterns.append(('dictionary', 'weights'))
    p['fixed'] = []
    if fixed and draw(st.booleans()):
        p['fixed'] = list(draw(st.sampled_from(patterns)))
    need = set(names if init == 'custom' else p['fixed'])
    if 'dictionary' in need:
        if method in AA_LIKE:
            p['dictionary'] = gen.stochastic_rows(draw, (kk, nn), kind=weights_kind)
        else:
            amp = float(np.abs(x).max()) or 1.0
            p['dictionary'] = gen.draw_normal(draw, (kk, dd)) \
                if weights_kind == 'seeded' else \
                amp * gen.draw_matrix(draw, (kk, dd), span=1.5)
    if 'weights' in need:
        p['weights'] = gen.stochastic_rows(draw, (nn, kk), kind=weights_kind)
    if 'parameters' in need:
        q = len(p['lags'])
        p['order_weights'] = gen.stochastic_rows(draw, (1, q),
                                                  kind=weights_kind)[0]
        p['transition_matrices'] = np.array(
            [gen.stochastic_columns(draw, (kk, kk), kind=weights_kind) for _ in range(q)])
    return p


@st.composite
def search_options(draw, memory=1):
    """Options of the line searches; all are descent methods.

    The guard against increases is off if several past costs are remembered.
    """
    o = {}
    if memory > 1:
        o['line_search_memory'] = draw(st.integers(2, memory))
        o['require_monotonic_cost_decrease'] = False
    if draw(st.booleans()):
        o['gamma'] = draw(st.sampled_from([0.0, 1e-10, 1e-2, 0.1, 0.4]))
    if draw(st.booleans()):
        o['alpha_min'] = draw(st.sampled_from([1e-10, 1e-6, 0.1, 1.0]))
    if draw(st.booleans()):
        o['alpha_max'] = draw(st.sampled_from([1.0, 10.0, 1e6, 1e10]))
    if draw(st.booleans()):
        o['sigma_one'] = draw(st.sampled_from([1e-3, 0.01, 0.4]))
        o['sigma_two'] = draw(st.sampled_from([0.5, 0.99]))
    if draw(st.integers(0, 3)) == 3:
        o['step_size_tolerance'] = draw(st.sampled_from([1e-8, 1e-15]))
    return o


# ------------------------------------------------------------- execution

def build(p, **override):
    o = dict(p)
    o.update(override)
    kw = {'init': o['init'], 'tolerance': o['tolerance'],
          'max_iterations': o['max_iterations'], 'random_state': o['seed']}
    for key in ('gamma', 'verbose'):
        if key in o:
            kw[key] = o[key]
    kw.update(o.get('options', {}))
    m = o['method']
    if m in AA_LIKE:
        if o.get('delta'):
            kw['delta'] = o['delta']
        if m == 'aa':
            if 'kernel_func' in o:
                kw['kernel_func'] = o['kernel_func']
            return ArchetypalAnalysis(o['k'], **kw)
        return KernelAA(o['k'], **kw)
    kw['epsilon_states'] = o['epsilon_states']
    if m == 'gpnh':
        return GPNHConvexCoding(o['k'], **kw)
    if m == 'crom':
        return GPNHConvexCodingCROM(o['k'], lags=o['lags'], **kw)
    return MTDConvexCoding(o['k'], lags=o['lags'],
                           epsilon_weights=o['epsilon_weights'], **kw)


def data_of(p):
    """What is passed to fit: the data or its Gram matrix."""
    X = p['X'].dot(p['X'].T) if p['method'] == 'kaa' else p['X']
    how = p.get('layout', 'C')
    if how == 'int':
        # Integers are passed as such when the data happen to be integers.
        whole = np.abs(X).max() < 1e6 and np.array_equal(X, np.rint(X))
        return X.astype('i8') if whole else X.copy()
    return gen.layout(X, how)


def fit_kwargs(p):
    kw = {}
    for name in ('dictionary', 'weights', 'order_weights',
                 'transition_matrices'):
        if name in p:
            kw[name] = p[name].copy()
    for name in p['fixed']:
        kw['update_' + name] = False
    kw.update(p.get('fs_options', {}))
    return kw


class Fit:
    """Validated, copied results of a fit."""

    def __init__(self, p, model, weights):
        n, d = p['X'].shape
        k = p['k']
        self.p = p
        self.model = model
        self.raw_weights = weights
        self.W = get_array(weights, (n, k), 'the weights')
        self.D = get_array(model.dictionary_,
                           (k, n if p['method'] in AA_LIKE else d),
                           'dictionary_')
        self.cost = get_number(model.cost_, 'cost_')
        self.n_iter = model.n_iter_
        if p['method'] in MTD_LIKE:
            q = len(p['lags'])
            self.order_weights = get_array(model.order_weights, (q,),
                                           'order_weights')
            self.transitions = get_array(
                model.transition_matrices, (q, k, k), 'transition_matrices')


def run(p, **override):
    model = build(p, **override)
    weights = model.fit_transform(data_of(p), **fit_kwargs(p))
    return Fit(p, model, weights)


# ----------------------------------------------------------- objectives

def aa_cost(X, W, D):
    r = X - W.dot(D.dot(X))
    return float((r * r).sum())


def states_penalty(S):
    """Average squared separation of the states, per feature."""
    k, d = S.shape
    if k == 1:
        return 0.0
    total = 0.0
    for i in range(k):
        for j in range(i):
            total += float(((S[i] - S[j]) ** 2).sum())
    return 2.0 * total / (d * k * (k - 1))


def mtd_step(history, lags, omega, T):
    """One step ahead: history[-l] is the state l steps back."""
    out = np.zeros(history.shape[1])
    for w, l, t in zip(omega, lags, T):
        out = out + w * t.dot(history[-l])
    return out


def mtd_penalty(W, lags, omega, T):
    n, k = W.shape
    if k == 1:
        return 0.0
    m = max(lags)
    total = 0.0
    for t in range(m, n):
        r = W[t] - mtd_step(W[:t], lags, omega, T)
        total += float(r.dot(r))
    return total / (k * (n - m))


def reconstruction_error(X, W, S):
    r = X - W.dot(S)
    return float((r * r).mean())


def objective(p, W, D, omega=None, T=None):
    """Documented objective at the given factors (D includes AA scales)."""
    X = p['X']
    if p['method'] in AA_LIKE:
        return aa_cost(X, W, D)
    value = reconstruction_error(X, W, D)
    value += p['epsilon_states'] * states_penalty(D)
    if p['method'] == 'mtd':
        value += p['epsilon_weights'] * mtd_penalty(W, p['lags'], omega, T)
    return value


def cost_scale(p, W=None, D=None):
    """Magnitude of the terms entering the cost, for rounding tolerances."""
    X = p['X']
    n = X.shape[0]
    if p['method'] in AA_LIKE:
        return n * float((X * X).sum(axis=1).max()) * \
            (1 + p.get('delta', 0.0)) ** 2 * 4
    value = float((X * X).mean()) * 4
    if W is not None:
        value += float((W.dot(D) ** 2).mean())
        value += p['epsilon_states'] * 4 * float((D * D).mean())
    if p['method'] == 'mtd':
        value += 4 * p['epsilon_weights']
    return value


def initial_cost(p):
    """Objective at the initial guess, when the problem determines it."""
    if p['init'] != 'custom':
        return None
    return objective(p, p['weights'], p['dictionary'],
                     p.get('order_weights'), p.get('transition_matrices'))


# ------------------------------------------------------------ gradients

def weights_gradient(p, W, D, omega=None, T=None):
    X = p['X']
    n, d = X.shape
    if p['method'] in AA_LIKE:
        Z = D.dot(X)
        return 2 * (W.dot(Z) - X).dot(Z.T)
    g = 2.0 / (n * d) * (W.dot(D) - X).dot(D.T)
    k = W.shape[1]
    if p['method'] == 'mtd' and k > 1 and p['epsilon_weights']:
        lags = p['lags']
        m = max(lags)
        c = 2.0 * p['epsilon_weights'] / (k * (n - m))
        for t in range(m, n):
            r = W[t] - mtd_step(W[:t], lags, omega, T)
            g[t] += c * r
            for w, l, tm in zip(omega, lags, T):
                g[t - l] -= c * w * tm.T.dot(r)
    return g


def parameters_gradient(W, lags, omega, T):
    """Gradient of the prediction error with respect to (omega, T)."""
    n, k = W.shape
    m = max(lags)
    c = 2.0 / (k * (n - m))
    go = np.zeros(len(lags))
    gt = np.zeros_like(T)
    for t in range(m, n):
        r = W[t] - mtd_step(W[:t], lags, omega, T)
        for i, l in enumerate(lags):
            go[i] -= c * float(r.dot(T[i].dot(W[t - l])))
            gt[i] -= c * omega[i] * np.outer(r, W[t - l])
    return go, gt


def simplex_gap(G, W, axis):
    """Frank-Wolfe gap: upper bound for the possible improvement."""
    return float((G * W).sum() - G.min(axis=axis).sum())


def check_stochastic(a, axis, what, tol=1e-9):
    require(bool((a >= -1e-12).all()), '%s have a negative entry %r', what,
            float(a.min()))
    s = a.sum(axis=axis)
    require(bool(np.all(np.abs(s - 1) <= tol)),
            '%s sum to %r instead of one', what,
            float(s.ravel()[np.argmax(np.abs(s - 1))]) if s.size else 0)


def labels(p, ctx):
    ctx.label(p['method'], 'init=%s' % p['init'], p['kind'],
              'k=%s' % (p['k'] if p['k'] < 3 else '3+'))
    if p['fixed']:
        ctx.label('fixed ' + '+'.join(p['fixed']))
    if p.get('delta'):
        ctx.label('delta>0')
    if p['k'] > p['X'].shape[1]:
        ctx.label('k>d')


__all__ = [n for n in dir() if not n.startswith('_')]
_ = Violation
