"""P24: the local VARX model is the weighted least-squares regression."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, get_array, require
from reor.fembv_varx import FEMBVVARXLocalLinearModel

RULE = ('Generated series, orders, external factors and weights; the '
        'published coefficients are inserted into the documented recursion, '
        'written as loops, and must attain the minimum of an independently '
        'assembled regression (and equal its solution when that is unique); '
        'residuals and covariance are recomputed. Coefficients that are given '
        'must be taken over with their residuals. Then weights are rescaled '
        'and unused samples changed. Non-trivial: a lag, a factor or weights.')
ASSUMPTIONS = ['Coefficients are compared when the regression is unique '
               '(condition below 1e6); the covariance when its degrees of '
               'freedom are at least 0.1 in size.']


@st.composite
def cases(draw, tier):
    p, s = draw(gen.sizes(0, 3, 8)), draw(gen.sizes(0, 3, 8))
    d = draw(gen.sizes(1, 3, 8))
    external = draw(st.booleans())
    m = max(p, s if external else 0)
    n = m + draw(gen.sizes(3, 20, 80 if tier == 'thorough' else 40,
                           huge=400))
    kind = draw(st.sampled_from(['normal', 'normal', 'var', 'grid', 'int',
                                 'offset']))
    if kind == 'grid':
        y = gen.draw_grid(draw, (n, d))
    elif kind == 'int':
        y = gen.draw_grid(draw, (n, d), width=5).astype('i8')
    else:
        y = gen.draw_normal(draw, (n, d))
        if kind == 'var':
            A = 0.6 * np.linalg.qr(gen.draw_normal(draw, (d, d)))[0]
            for t in range(1, n):
                y[t] = A.dot(y[t - 1]) + 0.2 * y[t]
        elif kind == 'offset':
            y = y + 20.0
    unit = 1.0
    if y.dtype.kind == 'f':
        unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-8, 1e-4, 1e4, 1e7]))
        y = unit * y
    c = {'y': y, 'unit': unit, 'p': p, 's': s, 'kind': kind, 'u': None, 'w': None,
         'scale': draw(st.sampled_from([0.1, 3.0, 7.5])),
         'twice': draw(st.booleans()), 'modify': draw(gen.seeds()),
         'layout': draw(st.sampled_from(gen.LAYOUTS))}
    if external:
        c['u'] = unit * gen.draw_normal(draw, (n, draw(gen.sizes(1, 2, 6))))
    how = draw(st.sampled_from(['none', 'seeded', 'sparse', 'window',
                                'binary']))
    if how != 'none':
        if how == 'seeded':
            w = gen.stochastic_rows(draw, (n, 2), 'seeded')[:, 0]
        elif how == 'sparse':
            w = gen.stochastic_rows(draw, (n, 2), 'sparse')[:, 0].copy()
        elif how == 'binary':
            w = gen.stochastic_rows(draw, (n, 2), 'onehot')[:, 0].copy()
        else:
            w = gen.stochastic_rows(draw, (n, 2), 'seeded')[:, 0]
            a = draw(st.integers(0, n - 1))
            w[a:a + m + 1 + draw(st.integers(0, 3))] = 0
        c['w'] = w
    c['how'] = how
    return c


def design(y, u, p, s, m):
    rows = []
    for t in range(m, len(y)):
        row = [np.ones(1)] + [y[t - l] for l in range(1, p + 1)]
        if u is not None:
            row += [u[t - l] for l in range(0, s + 1)]
        rows.append(np.concatenate(row))
    return np.array(rows)


class Coefficients:
    def __init__(self, model, d, e, p, s):
        self.mu = get_array(model.mu, (d,), 'mu')
        self.A = get_array(model.A, (p, d, d), 'A') if p else None
        self.B0 = get_array(model.B0, (d, e), 'B0') if e else None
        self.B = get_array(model.B, (s, d, e), 'B') if e and s else None

    def stacked(self):
        """In the order of the columns of `design`."""
        parts = [self.mu[None]]
        if self.A is not None:
            parts += [a.T for a in self.A]
        if self.B0 is not None:
            parts.append(self.B0.T)
        if self.B is not None:
            parts += [b.T for b in self.B]
        return np.concatenate(parts)

    def predict(self, y, u, t):
        x = self.mu.copy()
        if self.A is not None:
            for l, a in enumerate(self.A, 1):
                x = x + a.dot(y[t - l])
        if self.B0 is not None:
            x = x + self.B0.dot(u[t])
        if self.B is not None:
            for l, b in enumerate(self.B, 1):
                x = x + b.dot(u[t - l])
        return x


def fit(c, y, u, w, layout='C'):
    kw = {'p': c['p']}
    if u is not None:
        kw.update(u=gen.layout(u, layout), s=c['s'])
    model = FEMBVVARXLocalLinearModel(gen.layout(y, layout), **kw)
    if c['twice']:
        model.fit(weights=np.linspace(1, 2, len(y)))
    if w is None:
        model.fit()
    else:
        model.fit(weights=gen.layout(w, layout))
    return model


def check(case, ctx):
    y0, u, w = case['y'], case['u'], case['w']
    n, d = y0.shape
    e = 0 if u is None else u.shape[1]
    p, s = case['p'], case['s'] if e else 0
    m = max(p, s)
    inputs = [None if a is None else a.copy() for a in (y0, u, w)]
    model = fit(case, y0, u, w, case['layout'])
    for a, b in zip(inputs, (y0, u, w)):
        require(a is None or np.array_equal(a, b), 'an argument is modified')
    y = y0.astype('f8')
    c = Coefficients(model, d, e, p, s)
    R = get_array(model.residuals, (n, d), 'residuals')
    size = (case['unit'] + float(np.abs(c.mu).max()) +
            float(np.abs(y).max()) *
            (1 + float(np.abs(c.stacked()[1:]).max(initial=0))))
    require(not np.any(R[:m]), 'presample residuals are not zero')
    for t in range(m, n):
        require(np.abs(R[t] - (y[t] - c.predict(y, u, t))).max() <=
                1e-10 * size,
                'residual %d is %r instead of observation minus prediction '
                '%r', t, R[t], y[t] - c.predict(y, u, t))

    Z, Y = design(y, u, p, s, m), y[m:]
    v = np.ones(n) if w is None else w
    root = np.sqrt(v[m:])[:, None]
    best = np.linalg.lstsq(root * Z, root * Y, rcond=None)[0]
    target = float(((root * (Y - Z.dot(best))) ** 2).sum())
    value = float(((root * R[m:]) ** 2).sum())
    require(value <= target + 1e-9 * (case['unit'] ** 2 +
                                       float((Y * Y).sum())),
            'the weighted squared residual is %r, the minimum %r', value,
            target)
    # Uniqueness: as many samples of positive weight as needed.
    positive = root[:, 0] > 0
    sv = np.linalg.svd(root[positive] * Z[positive], compute_uv=False) \
        if positive.sum() >= Z.shape[1] else np.zeros(1)
    unique = sv[-1] > 1e-6 * sv[0] if sv[0] > 0 else False
    if unique:
        require(np.abs(c.stacked() - best).max() <=
                1e-6 * (1 + np.abs(best).max()),
                'the coefficients are %r instead of %r', c.stacked(), best)
    df = n - m - p * d - 1 - e * (1 + s) if w is None \
        else float(v[m:].sum()) - 1
    if abs(df) >= 0.1:
        S = get_array(model.Sigma_u, (d, d), 'Sigma_u')
        expected = sum(v[t] * np.outer(R[t], R[t]) for t in range(m, n)) / df
        require(np.abs(S - expected).max() <=
                1e-9 * np.abs(expected).max() + 1e-12 * size ** 2,
                'Sigma_u is %r instead of %r', S, expected)
        ctx.label('covariance')
    if unique:
        k = case['scale']
        other = Coefficients(fit(case, y0, u, k * v), d, e, p, s)
        require(np.abs(other.stacked() - c.stacked()).max() <=
                1e-6 * (1 + np.abs(best).max()),
                'multiplying the weights by %r changes the coefficients', k)
        if w is not None:
            # A sample only used in rows of weight zero.
            dead = [t for t in range(n) if all(
                w[r] == 0 for r in range(max(t, m), min(t + m, n - 1) + 1))]
            if dead:
                t = dead[case['modify'] % len(dead)]
                y2 = y.copy()
                y2[t] += 10.0 * case['unit']
                u2 = u
                if u is not None:
                    u2 = u.copy()
                    u2[t] -= 10.0 * case['unit']
                other = Coefficients(fit(case, y2, u2, w), d, e, p, s)
                require(np.abs(other.stacked() - c.stacked()).max() <=
                        1e-6 * (1 + np.abs(best).max()),
                        'sample %d has no weight but influences the '
                        'coefficients', t)
                ctx.label('sample without influence')
    ctx.label('weights=' + case['how'], 'p=%d' % p, 's=%d' % s,
              'external=%d' % e, case['kind'], 'unit=%g' % case['unit'],
              'unique' if unique else 'not unique')
    ctx.mark(p > 0 or e > 0 or w is not None)


@st.composite
def given_cases(draw, tier):
    c = draw(cases(tier))
    d, p = c['y'].shape[1], c['p']
    c['mu'] = c['unit'] * gen.draw_normal(draw, (d,))
    c['A'] = gen.draw_normal(draw, (p, d, d)) if p else None
    c['B0'] = c['B'] = None
    if c['u'] is not None:
        e = c['u'].shape[1]
        c['B0'] = gen.draw_normal(draw, (d, e))
        c['B'] = gen.draw_normal(draw, (c['s'], d, e)) if c['s'] else None
    c['omit'] = draw(st.booleans())
    return c


def check_given(case, ctx):
    """Given coefficients are taken over, with their residuals."""
    y, u, p = case['y'], case['u'], case['p']
    n, d = y.shape
    e = 0 if u is None else u.shape[1]
    s = case['s'] if e else 0
    m = max(p, s)
    kw = {} if p == 0 and case['omit'] else {'p': p}
    if e:
        kw['u'] = u.copy()
        if s or not case['omit']:
            kw['s'] = s
    model = FEMBVVARXLocalLinearModel(y.copy(), **kw)
    if case['twice']:
        model.fit()
    given = {name: case[name].copy() for name in ('A', 'B', 'B0')
             if case[name] is not None}
    mu = case['mu'].copy()
    model.set_parameters(mu, **given)
    # The caller goes on to use the arrays for something else.
    mu += 1
    for a in given.values():
        a += 1
    c = Coefficients(model, d, e, p, s)
    for name in ('mu', 'A', 'B', 'B0'):
        value = getattr(c, name)
        require((value is None) == (case[name] is None) and
                (value is None or np.array_equal(value, case[name])),
                '%s is %r instead of the given %r', name, value, case[name])
    R = get_array(model.residuals, (n, d), 'residuals')
    size = (case['unit'] + float(np.abs(c.mu).max()) +
            float(np.abs(y).max()) *
            (1 + float(np.abs(c.stacked()[1:]).max(initial=0))))
    require(not np.any(R[:m]), 'presample residuals are not zero')
    for t in range(m, n):
        require(np.abs(R[t] - (y[t] - c.predict(y, u, t))).max() <=
                1e-10 * size, 'residual %d is %r instead of observation minus '
                'prediction %r', t, R[t], y[t] - c.predict(y, u, t))
    ctx.label('p=%d' % p, 's=%d' % s, 'external=%d' % e,
              'fitted before' if case['twice'] else 'new')
    ctx.mark(p > 0 or e > 0)


SUBS = [Sub('local_model', lambda tier: cases(tier), check, 3000, 60000),
        Sub('given', lambda tier: given_cases(tier), check_given, 1000,
            20000)]
