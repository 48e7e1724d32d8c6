"""P18: invalid arguments are rejected and valid ones accepted."""
import numpy as np
from hypothesis import strategies as st

from checks import fact, models
from pbt import gen
from pbt.core import Sub, require
from reor.fembv_varx import FEMBVVARXLocalLinearModel

RULE = ('A valid call to an estimator is generated and must succeed; then one '
        'defect from the table of the property is put into it, and the call '
        'must raise an exception and leave its arguments unmodified. '
        'Non-trivial: a defect was applicable (always).')
ASSUMPTIONS = ['ValueError and TypeError count as a rejection. Piecewise VARX and '
               'k-means CROM take no iteration limit of their own.']

BAD_COUNTS = (0, -1, -3, 2.5, 1.5, '2')
BAD_NAMES = ('unknown', 'Random', 'furthest-sum', 'kmeans', '')


def resize(a, axis, grow):
    """One more or one less entry along an axis, sums preserved if possible."""
    if grow or a.shape[axis] == 1:
        extra = np.take(a, [0], axis=axis)
        return np.concatenate([a, extra], axis=axis)
    return np.delete(a, 0, axis=axis)


def rescale(a, axis, index, factor):
    """Break the sum along `axis` of one vector."""
    b = a.copy()
    moved = np.moveaxis(b, axis, -1)
    flat = index % int(np.prod(moved.shape[:-1], dtype=int) or 1)
    pos = np.unravel_index(flat, moved.shape[:-1]) if moved.ndim > 1 else ()
    moved[pos] = moved[pos] * factor
    return b


def defects(c):
    """Applicable defects: name -> function(c, x, kw, r) modifying in place.

    `r` is a drawn integer selecting the variant; a changed case is returned
    as the first element.
    """
    est = c['est']
    out = []

    def add(name, f):
        out.append((name, f))

    def with_case(**change):
        def f(c, x, kw, r):
            c = dict(c)
            if 'p' in c:
                c['p'] = dict(c['p'])
            for key, choices in change.items():
                value = choices[r % len(choices)]
                if 'p' in c and key != 'own_clusterer':
                    c['p'][{'init_name': 'init'}.get(key, key)] = value
                else:
                    c[key] = value
            return c, x, kw
        return f

    add('component count', with_case(k=BAD_COUNTS))
    if est in models.FACT or est in models.FEMBV:
        add('iteration limit', with_case(max_iterations=(0, -1, -7, 2.5, '3')))
        add('tolerance', with_case(tolerance=(-1e-3, -1.0, -1e-12)))
        add('initialisation', with_case(init_name=BAD_NAMES))
    if est in fact.MTD_LIKE:
        def bad_lag(c, x, kw, r):
            lags = list(c['p']['lags'])
            lags[r % len(lags)] = (0, -1, 1.5, '1', -2)[r % 5]
            return dict(c, p=dict(c['p'], lags=lags)), x, kw
        add('lag', bad_lag)
        add('extra lag', lambda c, x, kw, r: (
            dict(c, p=dict(c['p'], lags=list(c['p']['lags']) +
                           [(0, -1, 0.5)[r % 3]])), x, kw)
            if not {'order_weights'} & set(kw) else bad_lag(c, x, kw, r))
    if est == 'kaa':
        add('kernel shape', lambda c, x, kw, r: (
            c, resize(x, r % 2, r // 2 % 2), kw))
    if est == 'pwvarx':
        add('order', with_case(order=(-1, -2, 0.5)))
        add('exogenous order', with_case(s=(-1, -2, 0.5)))
        add('zero components, own clusterer',
            with_case(own_clusterer=(True,), k=(0,)))
    if est == 'fembv-varx':
        def bad_memory(c, x, kw, r):
            m = c['memory']
            if isinstance(m, list):
                m = list(m)
                m[r % len(m)] = -1 - r % 2
            else:
                m = -1 - r % 2
            return dict(c, memory=m), x, kw
        add('memory', bad_memory)
        add('memories', lambda c, x, kw, r: (
            dict(c, memory=[1] * (c['k'] + 1)), x, kw))

    # Arrays given to fit.
    x, kw = models.fit_arguments(c)
    used = dict(kw)
    if est in models.FACT:
        p = c['p']
        if est not in fact.MTD_LIKE or est == 'crom':
            if p['init'] != 'custom' and len(p['fixed']) == 2:
                used = {}

    def arrays(name):
        """Accessors of the arrays behind an argument."""
        v = used[name]
        if isinstance(v, dict):
            return [(lambda kw, k=k: kw[name][k],
                     lambda kw, a, k=k: kw[name].__setitem__(k, a), k)
                    for k in sorted(v)]
        return [(lambda kw: kw[name],
                 lambda kw, a: kw.__setitem__(name, a), name)]

    for name in sorted(used):
        if not isinstance(used[name], (np.ndarray, dict)):
            continue
        for get, put, label in arrays(name):
            def shape(c, x, kw, r, get=get, put=put, name=name):
                a = get(kw)
                # Exogenous data may have any number of columns.
                axis = 0 if name in ('external_factors', 'exog') \
                    else r % a.ndim
                put(kw, resize(a, axis, r // 4 % 2))
                return c, x, kw
            add('shape of ' + label, shape)
    sums = {'weights': 1, 'order_weights': 0, 'transition_matrices': 1}
    if est in fact.AA_LIKE:
        sums['dictionary'] = 1
    for name, axis in sums.items():
        if name in used:
            def wrong(c, x, kw, r, name=name, axis=axis):
                a = kw[name]
                kw[name] = rescale(a, axis, r // 7, (
                    0.9, 1.1, 0.5, 2.0, 0.0, 0.995, 1.004)[r % 7])
                if r % 3 == 0:
                    # Another vector may be off in the opposite direction.
                    sums = kw[name].sum(axis=axis)
                    good = np.flatnonzero(np.abs(sums - 1).ravel() < 1e-6)
                    if good.size:
                        kw[name] = rescale(kw[name], axis, int(good[0]),
                                           2 - (0.9, 1.1, 0.5, 2.0, 0.0, 0.995,
                                                1.004)[r % 7])
                return c, x, kw
            add('sums of ' + name, wrong)
            if name != 'order_weights' and used[name].shape[-2] > 1 and \
                    used[name].shape[-1] > 1:
                def other(c, x, kw, r, name=name, axis=axis):
                    a = kw[name]
                    if name == 'transition_matrices':
                        b = np.moveaxis(a, -1, -2)
                        if np.allclose(b.sum(axis=1), 1):
                            return None
                    else:
                        b = a / a.sum(axis=0, keepdims=True)
                        if np.allclose(b.sum(axis=1), 1):
                            return None
                    if not np.isfinite(b).all():
                        return None
                    kw[name] = b.copy()
                    return c, x, kw
                add('orientation of ' + name, other)
    if est == 'pwvarx' and 'u' in c:
        def short(c, x, kw, r):
            m = max(c['order'], c['s']) + 1
            kw['exog'] = kw['exog'][:m].copy()
            return c, x, kw
        add('short exogenous data', short)
    return out


@st.composite
def cases(draw):
    c = draw(models.cases(inits=('custom', 'custom', 'random', None,
                                 'furthest_sum'), iterations=(1, 2)))
    c['defect'] = draw(st.integers(0, 10 ** 6))
    c['variant'] = draw(st.integers(0, 999))
    c['call'] = draw(st.sampled_from(['fit', 'fit_transform']))
    return c


def execute(c, x, kw):
    model = models.make(c, c['seed'])
    return getattr(model, c['call'])(x, **kw)


def require_rejection(call, what):
    try:
        call()
    except (ValueError, TypeError):
        return
    except Exception as exc:  # noqa: B902
        require(False, '%s fails with %r instead of being rejected', what,
                exc)
    require(False, '%s is accepted', what)


def check(case, ctx):
    table = defects(case)
    # Small drawn integers are frequent, spread them over the table.
    spread = np.random.RandomState(case['defect']).randint(1 << 30)
    name, f = table[spread % len(table)]
    x, kw = models.fit_arguments(case)
    execute(case, x, kw)
    x, kw = models.fit_arguments(case)
    changed = f(case, x, kw, case['variant'])
    if changed is None:
        ctx.label('mutation is valid')
        return
    c, x, kw = changed
    before = models.snapshot(x), models.snapshot(kw)
    require_rejection(lambda: execute(c, x, kw),
                      '%s with a wrong %s' % (case['est'], name))
    if name in ('lag', 'extra lag', 'order', 'exogenous order'):
        require_rejection(lambda: models.make(c, c['seed']),
                          'the constructor of %s with a wrong %s' %
                          (case['est'], name))
    require(models.same(before[0], x) and all(
        models.same(before[1][k], kw[k]) for k in kw),
        'the rejected call (%s of %s) modified its arguments', name,
        case['est'])
    ctx.label('%s: %s' % (case['est'], name))
    ctx.mark()


# ---------------------------------------------------------- other calls

@st.composite
def transform_cases(draw):
    c = draw(models.cases(ests=('kaa', 'fembv-varx', 'fembv-varx', 'pwvarx',
                                'kmeans-crom', 'aa', 'gpnh', 'mtd', 'crom',
                                'fembv-kmeans')))
    if c['est'] == 'fembv-varx' and 'u' not in c:
        c['u'] = gen.draw_normal(draw, (c['X'].shape[0], 1))
        c['v'] = gen.draw_normal(draw, (c['Y'].shape[0], 1))
        c['custom'] = False
    c['grow'] = draw(st.booleans())
    c['call'] = 'fit'
    return c


def check_transform(case, ctx):
    """Mismatched arguments of transform."""
    est = case['est']
    if est == 'pwvarx' and 'u' not in case or est == 'kmeans-crom' and \
            case['X'].shape[1] == 1 and not case['grow']:
        return
    x, kw = models.fit_arguments(case)
    model = execute(case, x, kw)
    y, kw = models.transform_arguments(case)
    model.transform(y, **kw)
    y, kw = models.transform_arguments(case)
    if kw:
        key = list(kw)[0]
        kw[key] = resize(kw[key], 0, case['grow'])
    else:
        # Archetypes are combinations of samples, states have features.
        y = resize(y, 0 if est == 'aa' else 1, case['grow'])
    before = models.snapshot(y), models.snapshot(kw)
    require_rejection(lambda: model.transform(y, **kw),
                      'transform of %s with mismatched data' % est)
    require(models.same(before[0], y) and models.same(before[1], kw),
            'the rejected transform of %s modified its arguments', est)
    ctx.label(est)
    ctx.mark()


@st.composite
def local_cases(draw):
    n, d = draw(st.integers(8, 14)), draw(st.integers(1, 2))
    return {'y': gen.draw_normal(draw, (n, d)), 'p': draw(st.integers(0, 2)),
            's': draw(st.integers(0, 2)),
            'u': gen.draw_normal(draw, (n, draw(st.integers(1, 2)))),
            'w': gen.stochastic_rows(draw, (n, 2), 'seeded')[:, 0],
            'defect': draw(st.sampled_from(
                ['p', 's', 'u shorter', 'u longer', 'w shorter', 'w longer',
                 'w presample', 'none'])),
            'value': draw(st.sampled_from([-1, -2, 0.5, 1.0, '1']))}


def check_local(case, ctx):
    """The local VARX model."""
    def run(p, s, u, w):
        FEMBVVARXLocalLinearModel(case['y'].copy(), p=p, u=u,
                                  s=s).fit(weights=w)

    a = {'p': case['p'], 's': case['s'], 'u': case['u'].copy(),
         'w': case['w'].copy()}
    run(**a)
    run(a['p'], 0, None, None)
    d = case['defect']
    if d in ('p', 's'):
        a[d] = case['value']
    elif d == 'none':
        return
    elif d == 'w presample':
        if max(case['p'], case['s']) == 0:
            return
        a['w'] = a['w'][max(case['p'], case['s']):].copy()
    else:
        a[d[0]] = resize(a[d[0]], 0, d.endswith('longer'))
    require_rejection(lambda: run(**a),
                      'the local VARX model with a wrong argument (%s)' % d)
    ctx.label(d)
    ctx.mark()


SUBS = [Sub('estimators', lambda tier: cases(), check, 5000, 80000),
        Sub('transform', lambda tier: transform_cases(), check_transform,
            400, 8000),
        Sub('local_model', lambda tier: local_cases(), check_local, 500,
            10000)]
