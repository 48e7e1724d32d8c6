"""P30: numeric types and memory layouts of the arguments do not matter."""
import numpy as np
from hypothesis import strategies as st

from checks import fact, models
from pbt import gen
from pbt.core import Sub, require
from reor.fembv_varx import FEMBVVARXLocalLinearModel
from reor.furthest_sum import furthest_sum
from reor.simplex_projection import (
    simplex_project_columns, simplex_project_rows, simplex_project_vector)

RULE = ('Every array passed to an estimator or function (data, kernels, '
        'initial guesses, factors, sample weights) is replaced by one with the '
        'same entries in another type (integers of all sizes, Booleans, '
        'single, half and extended precision, other byte order) and memory '
        'layout; results must agree with those for C-ordered double '
        'precision. Entries are often whole numbers up to the range of a '
        'type. Non-trivial: two or more components (or rows) and a type other '
        'than double precision.')
ASSUMPTIONS = ['Agreement to 1e-6, at most three iterations; problems which '
               'are themselves sensitive to perturbations of 1e-13 are set '
               'aside and counted. FEM-BV, k-means and piecewise VARX compute '
               'in single precision for such data, which is not compared.']

TYPES = ('f8', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', 'bool', 'f4',
         'f2', 'g', '>f8', '>f4', '>i2', '>i4')
EXCLUDED = {'fembv-kmeans': ('f4', 'g'), 'fembv-varx': ('f4', 'g'),
            'kmeans-crom': ('f4',), 'pwvarx': ('f4', 'f2', 'g', '>f4')}


def represent(a, rng, excluded=(), narrow=True):
    """The same entries in another type and layout."""
    fitting = []
    with np.errstate(all='ignore'):
        for t in TYPES:
            if t in excluded:
                continue
            b = a.astype(t)
            if np.array_equal(b.astype('f8'), a) and (
                    b.dtype.kind != 'u' or a.min() >= 0):
                fitting.append(t)
    # The smallest types are the most interesting ones.
    small = [t for t in fitting if np.dtype(t).itemsize ==
             min(np.dtype(s).itemsize for s in fitting)]
    t = rng.choice(small if narrow and rng.randint(3) else fitting)
    b = a.astype(t)
    how = gen.LAYOUTS[rng.randint(len(gen.LAYOUTS))]
    out = gen.layout(b, how)
    if rng.randint(4) == 0 and out.flags.owndata:
        out.flags.writeable = False
    return out


def mapped(x, f):
    if isinstance(x, dict):
        return {k: mapped(v, f) for k, v in x.items()}
    return f(x) if isinstance(x, np.ndarray) else x


def onehot(a, axis):
    return (np.argmax(a, axis=axis)[..., None] ==
            np.arange(a.shape[axis])).astype('f8')


def whole(a, scale):
    return np.rint(a * scale)


@st.composite
def cases(draw, ests):
    c = draw(models.cases(ests=ests))
    c['type_seed'] = draw(gen.seeds())
    scale = draw(st.sampled_from([0.0, 0.0, 1.0, 2.0, 15.0, 45.0, 5000.0]))
    sign = draw(st.booleans())
    c['unit'] = draw(st.sampled_from(['whole', 'half']))

    def integral(a, s=scale):
        a = whole(a, s)
        return np.abs(a) if sign else a

    for b in [c] + ([c['p']] if 'p' in c else []):
        for name in ('X', 'Y', 'u', 'v', 'w', 'dictionary', 'Theta'):
            if name not in b or (name == 'dictionary' and
                                 c['est'] in fact.AA_LIKE):
                continue
            if scale:
                if name == 'w':
                    b[name] = 1 + integral(b[name], 2.0)
                elif name == 'Theta':
                    b[name] = integral(b[name], 2.0 * scale)
                else:
                    b[name] = integral(b[name])
            elif c['unit'] == 'half':
                b[name] = b[name].astype('f4').astype('f8')
        if scale:
            if 'parameters' in b:
                b['parameters'] = {k: integral(v, 2.0)
                                   for k, v in b['parameters'].items()}
            if 'weights' in b:
                b['weights'] = onehot(b['weights'], 1)
            if 'dictionary' in b and c['est'] in fact.AA_LIKE:
                b['dictionary'] = onehot(b['dictionary'], 1)
            if 'order_weights' in b:
                b['order_weights'] = onehot(b['order_weights'][None], 1)[0]
            if 'transition_matrices' in b:
                b['transition_matrices'] = np.array(
                    [onehot(t.T, 1).T for t in b['transition_matrices']])
    c['kind'] = 'whole x%g' % scale if scale else c['unit']
    c['narrow'] = draw(st.booleans())
    c['numbers'] = draw(st.integers(0, 2)) == 2
    return c


INTEGERS = ('i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4')
WHOLE = ('k', 'max_iterations', 'order', 's', 'n_init', 'memory', 'lags',
         'start_index', 'n_extra_steps', 'exclude', 'horizon')
REAL = ('delta', 'epsilon_states', 'epsilon_weights', 'tolerance',
        'max_tv_norm')


def rescaled(v, rng):
    """The same number in another type (or a sequence of such numbers)."""
    if isinstance(v, (list, np.ndarray)):
        new = [rescaled(x, rng) for x in v]
        return new if isinstance(v, list) else np.array(new, dtype=v.dtype)
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        fitting = [t for t in INTEGERS if np.array(v).astype(t) == v]
        t = fitting[rng.randint(len(fitting))]
        return np.dtype(t).type(v)
    return v


def retyped(c, rng):
    """The same options as NumPy numbers."""
    new = {}
    for name, v in c.items():
        if isinstance(v, dict) and name in ('p', 'fs_options'):
            v = retyped(v, rng)
        elif name in WHOLE:
            v = rescaled(v, rng)
        elif name in REAL and v is not None:
            kinds = [np.float64, float]
            kinds += [t for t in (np.float32, np.float16, int)
                      if not np.isinf(t(v)) and t(v) == v]
            v = kinds[rng.randint(len(kinds))](v)
        new[name] = v
    return new


def results(c, convert, noise=None):
    """All results, with the arguments passed through `convert`."""
    est = c['est']
    model = models.make(c, c['seed'])
    x, kw = models.fit_arguments(c)
    y, kw2 = models.transform_arguments(c)
    if noise is not None:
        x = x * (1 + 1e-13 * noise.uniform(-1, 1, size=x.shape))
        y = y * (1 + 1e-13 * noise.uniform(-1, 1, size=y.shape))
    used = []

    def arguments(v):
        def one(a):
            b = convert(a)
            used.append((b, b.copy()))
            return b
        return mapped(v, one)

    out = {'fit': np.array(model.fit_transform(arguments(x),
                                               **arguments(kw)), dtype='f8')}
    par = models.snapshot(models.fitted(c, model))
    out.update({k: None if v is None else np.array(v, dtype='f8')
                for k, v in par.items()})
    if est in fact.MTD_LIKE or est == 'kmeans-crom':
        out['predict'] = np.array(model.predict(
            arguments(y), horizon=c.get('horizon', 2)))
    if est in models.FACT:
        w = np.eye(int(c['k']))[:, ::-1]
        out['inverse'] = np.array(model.inverse_transform(arguments(w)))
    out['transform'] = np.array(model.transform(arguments(y),
                                                **arguments(kw2)))
    for a, b in used:
        require(np.array_equal(a, b), 'an argument is modified')
    return out, used


def check(case, ctx):
    est = case['est']
    rng = np.random.RandomState(case['type_seed'])
    try:
        base, _ = results(case, lambda a: a.copy())
    except ValueError as e:
        if est == 'pwvarx' and 'class' in str(e):
            ctx.label('one cluster')
            return
        raise
    changed = dict(case, horizon=2)
    if case['numbers']:
        changed = retyped(changed, rng)
    other, used = results(changed, lambda a: represent(
        a, rng, EXCLUDED.get(est, ()), case['narrow']))
    types = sorted(set(a.dtype.str.lstrip('|<') for a, _ in used))
    bad = [k for k in base if not models.close(other[k], base[k], 1e-6)]
    if bad:
        for t in range(6):
            moved, _ = results(case, lambda a: a.copy(),
                               np.random.RandomState(t))
            if not all(models.close(moved[k], base[k], 1e-9) for k in base):
                ctx.label('sensitive to rounding')
                return
    require(not bad, '%s gives another %s if the same numbers are passed as '
            '%s', est, ', '.join(bad), ', '.join(types))
    ctx.label(est, case['kind'], *['NumPy numbers'] * case['numbers'], *('type ' + t for t in types))
    ctx.mark(case['k'] > 1 and types != ['f8'])


@st.composite
def function_cases(draw):
    top = draw(st.sampled_from([1, 2, 100, 120, 250, 30000, 60000]))
    n = draw(st.integers(2, 12))
    D = np.abs(gen.draw_grid(draw, (n, n), width=top)) if top <= 120 else \
        np.rint(top * np.abs(gen.draw_matrix(draw, (n, n), span=1.0)))
    D = np.triu(D, 1)
    D = D + D.T
    size = n
    if draw(st.integers(0, 11)) == 11:
        # More samples than a small integer can count.
        size = draw(st.sampled_from([130, 260]))
        y = np.random.RandomState(draw(gen.seeds())).permutation(size) * 1.0
        D = np.minimum(np.abs(y[:, None] - y), top)
    x = gen.draw_grid(draw, (draw(st.integers(1, 6)), draw(st.integers(1, 6))),
                      width=min(top, 120))
    if draw(st.booleans()):
        x = np.abs(x)
    k = draw(st.integers(1, n))
    y = gen.draw_grid(draw, (n + 6, draw(st.integers(1, 2))),
                      width=min(top, 120))
    return {'D': D, 'k': k, 'start': draw(st.integers(0, size - 1)),
            'steps': draw(st.integers(0, 12)), 'x': x, 'y': y,
            'u': gen.draw_grid(draw, (n + 6, 1), width=min(top, 120)),
            'w': np.abs(gen.draw_grid(draw, (n + 6,), width=2)),
            'p': draw(st.integers(0, 2)), 's': draw(st.integers(0, 2)),
            'type_seed': draw(gen.seeds()), 'narrow': draw(st.booleans())}


def check_functions(case, ctx):
    rng = np.random.RandomState(case['type_seed'])

    def change(a, excluded=()):
        return represent(a, rng, excluded, case['narrow'])

    D = change(case['D'])
    start = rescaled(case['start'], rng)
    chosen = [list(map(int, furthest_sum(
        m, case['k'], i, extra_steps=case['steps'])))
              for m, i in ((case['D'], case['start']), (D, start))]
    require(chosen[0] == chosen[1], 'furthest_sum selects %r instead of %r '
            'if the distances are passed as %s (start as %s)', chosen[1],
            chosen[0], D.dtype, type(start).__name__)
    x = case['x']
    for row in x:
        v = change(row, ('f2', 'f4', '>f4'))
        a, b = simplex_project_vector(row.copy()), simplex_project_vector(v)
        require(np.abs(np.asarray(b, dtype='f8') - a).max() <= 1e-9,
                'the projection of %r passed as %s is %r', row.tolist(),
                v.dtype, b)
    for f in (simplex_project_rows, simplex_project_columns):
        a, b = x.copy(), gen.layout(x, gen.LAYOUTS[rng.randint(4)])
        f(a)
        f(b)
        require(np.abs(a - b).max() <= 1e-9, '%s depends on the memory '
                'layout', f.__name__)
    models_ = []
    for conv in (np.copy, lambda a: change(a, ('f2', 'f4', '>f4', 'g'))):
        m = FEMBVVARXLocalLinearModel(conv(case['y']), p=case['p'],
                                      u=conv(case['u']), s=case['s'])
        m.fit(weights=conv(case['w']))
        models_.append(m)
    a, b = (m.residuals for m in models_)
    scale = 1 + float(np.abs(case['y']).max())
    # Without weight, any coefficients are admissible.
    live = case['w'] > 0
    require(np.abs(a - b)[live].max(initial=0) <= 1e-6 * scale,
            'the residuals of the local VARX model depend on the type of the '
            'data')
    ctx.label('distances ' + D.dtype.str)
    ctx.mark(case['k'] > 1 and D.dtype != np.dtype('f8'))


SUBS = [Sub('factorizations', lambda tier: cases(models.FACT), check, 1500,
            30000),
        Sub('others', lambda tier: cases(models.FEMBV + models.OTHER), check,
            700, 14000),
        Sub('functions', lambda tier: function_cases(), check_functions, 1000,
            20000)]
