"""P25: FEM-BV-VARX alternates exact updates."""
import numpy as np

from checks import femb
from pbt import gen
from pbt.core import Sub, get_array, require
from hypothesis import strategies as st

RULE = ('The iterates are obtained from fits with budgets 1, 2, ..., K. '
        'With the previous affiliations as weights, the published coefficients '
        'of every component must attain the least-squares minimum of an '
        'independently assembled regression; the affiliations must be '
        'admissible and optimal for the squared residuals of the published '
        'coefficients, the cost their weighted total and not larger than '
        'before. Then new data are transformed. Starts of which only a part '
        'is given, and fits with one or both of the factors held fixed, are '
        'judged separately. Non-trivial: two or more components '
        'with a lag or an external factor.')
ASSUMPTIONS = ['Sums of squares are compared to 1e-7 relative to the data.']


def design(X, u, memory, start):
    rows = []
    for t in range(start, X.shape[0]):
        row = [np.ones(1)]
        row += [X[t - l] for l in range(1, memory + 1)]
        if u is not None:
            row.append(u[t])
        rows.append(np.concatenate(row))
    return np.array(rows)


def refit(c, r, G, when=''):
    """The coefficients of r are least-squares fits with the weights G."""
    X, u = c['X'].astype('f8'), c.get('u')
    for j, m in enumerate(r.memory):
        require(r.A is None or not np.any(r.A[j, m:]),
                'lags beyond the memory of component %d are used', j)
        if G is None:
            continue
        w = np.sqrt(G[:, j])[:, None]
        Z = design(X, u, m, r.start)
        y = X[r.start:]
        best = np.linalg.lstsq(w * Z, w * y, rcond=None)[0]
        target = float(((w * (y - Z.dot(best))) ** 2).sum())
        e = femb.varx_residuals(X, u, r.mu, r.A, r.B0, r.memory, j, r.start)
        value = float(((w * e) ** 2).sum())
        require(value <= target + 1e-7 * (femb.unit(c) +
                                           float((y * y).sum())),
                '%scomponent %d has the weighted squared residual %r, least '
                'squares gives %r', when, j, value, target)


def check(case, ctx):
    X, bound, u = case['X'].astype('f8'), case['max_tv_norm'], case.get('u')
    previous, G = None, case.get('weights')
    unit = femb.unit(case)
    for i in range(1, case['max_iterations'] + 1):
        r = femb.run(case, max_iterations=i)
        refit(case, r, G, 'in iteration %d, ' % i)
        D = r.distances(case, X, u)
        require(abs(r.cost - float((r.G * D).sum())) <=
                1e-8 * (unit + D.sum()),
                'cost_ is %r instead of %r', r.cost, float((r.G * D).sum()))
        femb.check_feasible(r.G, bound)
        femb.check_optimal(r.G, D, bound, unit=unit)
        require(previous is None or
                r.cost <= previous + 1e-5 * femb.loose() *
                (unit + float((X * X).sum())),
                'the cost rises from %r to %r in iteration %d', previous,
                r.cost, i)
        previous, G = r.cost, r.G
    kept = {k: None if v is None else v.copy() for k, v in
            (('mu', r.model.mu), ('A', r.model.A), ('B0', r.model.B0))}
    H = femb.transform(case, r.model)
    femb.check_feasible(H, bound, 'the transformed affiliations')
    D = r.distances(case, case['Y'], case.get('v'))
    femb.check_optimal(H, D, bound, 'the transformed affiliations', unit)
    for name, value in kept.items():
        new = getattr(r.model, name)
        require((value is None and new is None) or
                (isinstance(new, np.ndarray) and np.array_equal(new, value)),
                'transform changes %s', name)
    femb.labels(case, ctx)
    ctx.label('iterations=%d' % case['max_iterations'],
              'memories differ' if len(set(r.memory)) > 1 else
              'memory=%d' % r.memory[0],
              'external' if u is not None else 'no external')
    ctx.mark(case['k'] > 1 and (r.start > 0 or u is not None))


@st.composite
def default_cases(draw):
    n, d = draw(st.integers(5, 10)), draw(st.integers(1, 3))
    return {'X': gen.draw_normal(draw, (n, d)), 'seed': draw(gen.seeds()),
            'memory': draw(st.sampled_from([None, 0, 1])),
            'max_tv_norm': draw(st.sampled_from([None, 1.0]))}


def check_default(case, ctx):
    """n_components=None keeps all features; memory=None means none."""
    X = case['X']
    n, d = X.shape
    m = case['memory'] or 0
    model = femb.FEMBVVARX(None, memory=case['memory'], max_iterations=2,
                           max_tv_norm=case['max_tv_norm'], tolerance=0.0,
                           random_state=case['seed'])
    G = get_array(model.fit_transform(X.copy()), (n - m, d),
                  'the affiliations')
    femb.check_feasible(G, case['max_tv_norm'])
    mu = get_array(model.mu, (d, d), 'mu')
    A = get_array(model.A, (d, m, d, d), 'A') if m else None
    D = femb.varx_distances(X, None, mu, A, None, [m] * d)
    require(abs(model.cost_ - float((G * D).sum())) <= 1e-8 * (1 + D.sum()),
            'cost_ is %r instead of %r', model.cost_, float((G * D).sum()))
    femb.check_optimal(G, D, case['max_tv_norm'])
    ctx.label('memory=%s' % case['memory'], 'd=%d' % d)
    ctx.mark(d > 1)


def check_guard(case, ctx):
    femb.check_guard(case)
    femb.labels(case, ctx)
    ctx.mark(case['k'] > 1)


def initial(c):
    return {name: c.get(name) for name in ('mu', 'A', 'B0')}


def check_held(case, ctx):
    femb.check_held(case, initial, refit, ctx)


SUBS = [Sub('alternation', lambda tier: femb.cases(
    models=('varx',), iterations=(1, 4), n=(5, 18),
    large=40 if tier == 'thorough' else 30), check, 700, 14000),
    Sub('defaults', lambda tier: default_cases(), check_default, 150, 2000),
    Sub('guard', lambda tier: femb.cases(models=('varx',), n=(5, 18),
        iterations=(1, 1)),
        check_guard, 300, 6000),
    Sub('held', lambda tier: femb.held_cases('varx', n=(5, 18)), check_held,
        400, 8000)]
