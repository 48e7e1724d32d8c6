"""P04: safeguarded step lengths."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, get_number, require
from reor.spg import get_next_spg_alpha, get_next_spg_step_length

RULE = ('Rejected steps: positive step, negative slope, any costs with '
        'f_new above the Armijo line (whatever their magnitude), default and '
        'random safeguards. Spectral steps: any curvature and squared step, '
        'including zero and negative curvature and ratios at or beyond both '
        'bounds. Non-trivial: every case with distinct numbers.')
ASSUMPTIONS = ['0 < sigma_one < sigma_two < 1, 0 < alpha_min < alpha_max; the '
               'interpolated minimiser is compared to 1e-9 relative, and '
               'within rounding of a safeguard either branch is accepted.']


def positive(lo, hi):
    return st.floats(lo, hi).map(lambda e: 10.0 ** e)


@st.composite
def step_cases(draw):
    step = draw(st.one_of(st.just(1.0), positive(-10, 0)))
    # Shape the quadratic through its minimiser, as a fraction of the step.
    slope = -draw(positive(-8, 8))
    kind = draw(st.sampled_from(['fraction', 'armijo', 'large']))
    if kind == 'fraction':
        frac = draw(st.floats(1e-6, 0.97))
        # minimiser = -step^2 slope / (2 (df - step slope)) = frac * step
        df = step * slope - 0.5 * step * slope / frac
    elif kind == 'armijo':
        df = 1e-4 * step * slope * draw(st.floats(0.0, 0.999))
    else:
        df = draw(positive(-10, 12))
    f_old = draw(st.one_of(st.just(0.0), st.floats(-10, 10)))
    c = {'step': step, 'slope': slope, 'f_old': f_old, 'df': df}
    if draw(st.booleans()):
        c['s1'] = draw(st.floats(0.001, 0.6))
        c['s2'] = c['s1'] + (0.999 - c['s1']) * draw(st.floats(0.01, 1.0))
    return c


def check_step(case, ctx):
    step, slope, f_old = case['step'], case['slope'], case['f_old']
    f_new = f_old + case['df']
    df = f_new - f_old
    if not f_new > f_old + 1e-4 * step * slope:
        ctx.label('not rejected')
        return
    kw = {}
    s1, s2 = 0.1, 0.9
    if 's1' in case:
        s1, s2 = case['s1'], case['s2']
        kw = {'sigma_one': s1, 'sigma_two': s2}
    new = get_number(get_next_spg_step_length(step, slope, f_old, f_new, **kw),
                     'the step')
    require(0 < new < step, 'next step %r after step %r', new, step)
    exact = -0.5 * step ** 2 * slope / (df - step * slope)
    lo, hi = s1, s2 * step
    inside = lo <= exact <= hi
    near = (math.isclose(exact, lo, rel_tol=1e-9) or
            math.isclose(exact, hi, rel_tol=1e-9))
    interpolated = math.isclose(new, exact, rel_tol=1e-9)
    halved = math.isclose(new, 0.5 * step, rel_tol=1e-9)
    if near:
        require(interpolated or halved, 'step %r is neither %r nor %r', new,
                exact, 0.5 * step)
    elif inside:
        require(interpolated, 'step %r is not the minimiser %r', new, exact)
    else:
        require(halved, 'step %r, expected half of %r (minimiser %r)', new,
                step, exact)
    # The costs enter only through their difference.
    if f_old != 0 and f_new == f_old + df:
        again = get_next_spg_step_length(step, slope, 0.0, df, **kw)
        if not near:
            require(math.isclose(new, again, rel_tol=1e-6),
                    'the step depends on the offset of the costs')
    ctx.label('interpolated' if inside else 'halved',
              'default safeguards' if not kw else 'custom safeguards')
    ctx.mark()


@st.composite
def alpha_cases(draw):
    c = {}
    if draw(st.booleans()):
        c['lo'] = draw(positive(-8, 0))
        c['hi'] = c['lo'] * draw(positive(0.01, 8))
    lo, hi = c.get('lo', 1e-3), c.get('hi', 1e3)
    c['sksk'] = draw(st.one_of(st.just(0.0), positive(-30, 30)))
    kind = draw(st.sampled_from(['ratio', 'any', 'zero', 'negative']))
    if kind == 'ratio':
        r = draw(st.floats(-0.5, 1.5))
        ratio = lo * (hi / lo) ** r
        c['beta'] = c['sksk'] / ratio
    elif kind == 'any':
        c['beta'] = draw(positive(-30, 30))
    elif kind == 'zero':
        c['beta'] = draw(st.sampled_from([0.0, -0.0]))
    else:
        c['beta'] = -draw(positive(-30, 30))
    c['kind'] = kind
    c['np'] = draw(st.booleans())
    return c


def check_alpha(case, ctx):
    lo, hi = case.get('lo', 1e-3), case.get('hi', 1e3)
    kw = {'alpha_min': lo, 'alpha_max': hi} if 'lo' in case else {}
    beta, sksk = case['beta'], case['sksk']
    f = np.float64 if case['np'] else float
    a = get_number(get_next_spg_alpha(f(beta), f(sksk), **kw), 'alpha')
    if beta <= 0:
        expected = hi
    else:
        expected = min(hi, max(lo, sksk / beta))
    require(math.isclose(a, expected, rel_tol=1e-12),
            'alpha is %r instead of %r', a, expected)
    ctx.label(case['kind'], 'at maximum' if expected == hi else
              'at minimum' if expected == lo else 'inside')
    ctx.mark()


SUBS = [Sub('step', lambda tier: step_cases(), check_step, 8000, 300000),
        Sub('alpha', lambda tier: alpha_cases(), check_alpha, 8000, 300000)]
