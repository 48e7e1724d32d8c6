"""P14: the stopping rule."""
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt import gen
from pbt.core import Sub, get_array, get_number, require
from reor.fembv_kmeans import FEMBVKMeans
from reor.fembv_varx import FEMBVVARX

RULE = ('For each case the costs after 1, 2, ..., K iterations are obtained '
        'from runs with zero tolerance; a tolerance is chosen relative to one '
        'of the observed cost changes, and the run with that tolerance must '
        'stop exactly where the rule says (same cost and factors as the '
        'prefix run), report it in n_iter_, and warn if and only if the '
        'budget is exhausted. Non-trivial: the run stops after at least two '
        'iterations.')
ASSUMPTIONS = ['Cost changes within rounding of the tolerance are skipped; a '
               'fit that converges exactly in its last allowed iteration may '
               'warn or not.',
               'n_iter_ of existing code is the 0-based index of the last '
               'iteration (known finding n_iter-last-index).']


@st.composite
def cases(draw, large=False):
    p = draw(fact.problems(
        methods=('aa', 'kaa', 'gpnh', 'mtd', 'crom'), n=(3, 7), d=(1, 3),
        inits=('custom', 'custom', 'random', 'furthest_sum', None),
        kinds=('normal', 'generic', 'convex', 'dup'), iterations=(1, 9),
        big=1 if large else 9, huge='always' if large else True))
    return {'p': p, 'pick': draw(st.integers(0, 8)),
            'factor': draw(st.sampled_from([0.5, 0.999, 1.001, 1.5, 20.0])),
            'zero': draw(st.integers(0, 4)) == 0,
            'extra': draw(st.integers(0, 2))}


def observe(run):
    """Result of a run and whether a UserWarning was issued."""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        result = run()
    return result, any(issubclass(w.category, UserWarning) and
                       not issubclass(w.category, DeprecationWarning)
                       for w in log)


def judge(case, ctx, start_cost, prefix, run, n_max, scale):
    """`prefix(i)` and `run(tol, n)` return (cost, arrays, n_iter)."""
    history = [prefix(i) for i in range(1, n_max + 1)]
    costs = [h[0] for h in history]
    changes = [None if start_cost is None else abs(costs[0] - start_cost)]
    changes += [abs(b - a) for a, b in zip(costs, costs[1:])]
    slack = 1e-9 * scale
    for i, h in enumerate(history):
        check_count(h[2], i + 1, ctx)
    if case['zero']:
        tol = 0.0
    else:
        base = changes[case['pick'] % n_max]
        if base is None or base <= 4 * slack:
            base = 1e-3 * scale
        tol = base * case['factor']
    stop, sure = n_max, True
    converged = False
    for i, c in enumerate(changes, 1):
        if c is None:
            # Unknown change in the first iteration.
            if tol > 0 and n_max > 1:
                sure = 'first'
            elif tol > 0:
                sure = False
            continue
        if tol > 0 and abs(c - tol) <= slack:
            sure = False
            break
        if c < tol:
            stop, converged = i, True
            break
    (cost, arrays, n_iter), warned = observe(lambda: run(tol, n_max))
    if sure is False:
        ctx.label('undecided')
        return
    expected = history[stop - 1]

    def agrees(h):
        return abs(h[0] - cost) <= slack and all(
            np.abs(a - b).max() <= 1e-9 * (1 + np.abs(b).max())
            for a, b in zip(arrays, h[1]))

    if sure == 'first' and stop != 1 and agrees(history[0]) and \
            (not agrees(expected) or int(n_iter) < stop - 1 or not warned):
        # The first change is unknown, it may have been below tolerance.
        if agrees(expected) and int(n_iter) >= stop - 1:
            check_count(n_iter, stop, ctx)
            ctx.label('undecided')
            return
        check_count(n_iter, 1, ctx)
        require(not warned, 'warning although the fit stopped early')
        ctx.label('stopped at the first iteration')
        return
    require(agrees(expected),
            'the fit did not stop after %d iterations (tolerance %r, cost '
            'changes %r): cost %r instead of %r', stop, tol, changes, cost,
            expected[0])
    check_count(n_iter, stop, ctx)
    if tol > 0:
        if stop == n_max and not converged:
            require(warned, 'no warning although the budget is exhausted')
        elif stop < n_max:
            require(not warned, 'warning although the fit stopped early')
    ctx.label('zero tolerance' if tol == 0 else 'converged' if converged
              else 'exhausted', 'stop=%s' % (stop if stop < 3 else '3+'))
    ctx.mark(stop >= 2)


def check_count(n_iter, performed, ctx):
    require(isinstance(n_iter, (int, np.integer)), 'n_iter_ is %r', n_iter)
    if int(n_iter) == performed:
        return
    if int(n_iter) == performed - 1:
        ctx.known('n_iter-last-index', 'n_iter_ is %d after %d iterations',
                  n_iter, performed)
        return
    require(False, 'n_iter_ is %d after %d iterations', n_iter, performed)


def check_fact(case, ctx):
    p = case['p']
    state = {'scale': 1e-300}

    def run(tol, n):
        f = fact.run(p, tolerance=tol, max_iterations=n)
        state['scale'] = max(state['scale'], fact.cost_scale(p, f.W, f.D))
        return f.cost, (f.W, f.D), f.n_iter

    probe = fact.run(p, max_iterations=1)
    scale = fact.cost_scale(p, probe.W, probe.D)
    if p['init'] == 'custom':
        scale = max(scale, fact.cost_scale(p, p['weights'], p['dictionary']))
    judge(case, ctx, fact.initial_cost(p), lambda i: run(0.0, i), run,
          p['max_iterations'], scale)
    fact.labels(p, ctx)


@st.composite
def fembv_cases(draw):
    model = draw(st.sampled_from(['kmeans', 'varx']))
    n = draw(gen.sizes(5, 12, 30))
    d = draw(gen.sizes(1, 2, 6))
    k = draw(gen.sizes(1, 3, 6))
    c = {'model': model, 'X': gen.draw_normal(draw, (n, d)), 'k': k,
         'memory': draw(st.integers(0, 1)) if model == 'varx' else 0,
         'max_tv_norm': draw(st.sampled_from([None, 1.0, 3.0])),
         'custom': draw(st.booleans()), 'seed': draw(gen.seeds()),
         'max_iterations': draw(st.integers(1, 5)),
         'pick': draw(st.integers(0, 4)),
         'factor': draw(st.sampled_from([0.5, 0.999, 1.001, 1.5, 20.0])),
         'zero': draw(st.integers(0, 4)) == 0}
    if c['custom']:
        c['weights'] = gen.stochastic_rows(draw, (n - c['memory'], k),
                                           'seeded')
        if model == 'kmeans':
            c['Theta'] = gen.draw_normal(draw, (k, d))
    return c


def check_fembv(case, ctx):
    X, k = case['X'], case['k']

    def run(tol, n):
        kw = {'max_tv_norm': case['max_tv_norm'], 'tolerance': tol,
              'max_iterations': n, 'random_state': case['seed'],
              'weights_solver_kwargs': {'solver': 'HIGHS'}}
        fit = {}
        if case['custom']:
            kw['init'] = 'custom'
            fit['weights'] = case['weights'].copy()
            if case['model'] == 'kmeans':
                fit['parameters'] = case['Theta'].copy()
        if case['model'] == 'kmeans':
            m = FEMBVKMeans(k, **kw)
        else:
            m = FEMBVVARX(k, memory=case['memory'], **kw)
        G = m.fit_transform(X.copy(), **fit)
        G = get_array(G, (X.shape[0] - case['memory'], k), 'affiliations')
        par = m.Theta if case['model'] == 'kmeans' else m.mu
        return (get_number(m.cost_, 'cost_'), (G, par.copy()), m.n_iter_)

    start = None
    if case['custom'] and case['model'] == 'kmeans':
        D = ((X[:, None] - case['Theta'][None]) ** 2).sum(axis=2)
        start = float((case['weights'] * D).sum())
    judge(case, ctx, start, lambda i: run(0.0, i), run,
          case['max_iterations'], 1 + float((X * X).sum()))
    ctx.label(case['model'], 'tv' if case['max_tv_norm'] is not None
              else 'no tv')


SUBS = [Sub('factorisation', lambda tier: cases(), check_fact, 1500, 40000),
        Sub('large', lambda tier: cases(True), check_fact, 100, 2000),
        Sub('fembv', lambda tier: fembv_cases(), check_fembv, 250, 5000)]
