"""P01: simplex projection is the exact Euclidean projection."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, get_array, require
from reor.simplex_projection import (simplex_project_columns,
                                     simplex_project_rows,
                                     simplex_project_vector)

RULE = ('Vectors and matrices of several kinds (generic, ties, points of the '
        'simplex, entries of very different magnitude) and memory layouts; the '
        'reference projection is computed in exact rational arithmetic. A case '
        'is non-trivial when at least two entries differ or the input is not '
        'already its own projection.')
ASSUMPTIONS = ['Inputs are finite float64 arrays. Agreement is required to '
               '1e-12 absolutely (the entries of a projection are at most '
               'one), whatever the magnitude of the input.']

TOL = 1e-12


def reference(x):
    """Exact projection of a vector of floats, rounded to floats at the end."""
    xs = [Fraction(float(v)) for v in x]
    order = sorted(xs, reverse=True)
    total, theta = Fraction(0), None
    for m, v in enumerate(order, 1):
        total += v
        t = (total - 1) / m
        if v > t:
            theta = t
    return np.array([float(max(v - theta, Fraction(0))) for v in xs])


def close(actual, expected, what):
    err = float(np.max(np.abs(actual - expected)))
    require(err <= TOL * (1 + 0.01 * expected.size),
            '%s deviates from the exact projection by %g', what, err)


@st.composite
def vectors(draw, n):
    kind = draw(st.sampled_from(['generic', 'wide', 'grid', 'simplex', 'near',
                                 'huge', 'tiny', 'floats', 'shifted']))
    if kind == 'generic':
        return gen.draw_matrix(draw, (n,), span=2.0)
    if kind == 'wide':
        return gen.draw_matrix(draw, (n,), span=2.0) * \
            10.0 ** gen.draw_grid(draw, (n,), width=6)
    if kind == 'grid':
        return gen.draw_grid(draw, (n,)) / draw(st.sampled_from([1.0, 2.0, 3.0]))
    if kind in ('simplex', 'near'):
        w = gen.stochastic_rows(draw, (1, n))[0]
        if kind == 'near':
            w = w + 1e-3 * gen.draw_matrix(draw, (n,))
        return w
    if kind == 'huge':
        return gen.draw_matrix(draw, (n,)) * 10.0 ** draw(st.integers(3, 20))
    if kind == 'tiny':
        return gen.draw_matrix(draw, (n,)) * 10.0 ** draw(st.integers(-20, -3))
    if kind == 'shifted':
        return gen.draw_matrix(draw, (n,)) + \
            draw(st.sampled_from([-1e6, -100.0, -3.0, 3.0, 100.0, 1e6]))
    f = st.floats(-1e12, 1e12, allow_nan=False, allow_subnormal=False)
    return np.array(draw(st.lists(f, min_size=n, max_size=n)))


@st.composite
def vector_case(draw):
    n = draw(gen.sizes(1, 12, 150, huge=2000))
    return {'x': draw(vectors(n)), 'layout': draw(st.sampled_from(gen.LAYOUTS)),
            'perm': draw(gen.seeds())}


def check_vector(case, ctx):
    x0 = case['x']
    n = x0.size
    x = gen.layout(x0, case['layout'])
    keep = x.copy()
    expected = reference(x0)
    y = get_array(simplex_project_vector(x), (n,), 'the projected vector')
    require(np.array_equal(x, keep), 'the input vector was modified')
    close(y, expected, 'the projected vector')
    require(bool((y >= 0).all()), 'negative entry in the projection')
    require(abs(y.sum() - 1) <= 1e-12 * (1 + 0.01 * n),
            'the projection sums to %r', y.sum())
    # Projecting again changes nothing, entries are treated alike.
    z = get_array(simplex_project_vector(y.copy()), (n,), 'second projection')
    close(z, y, 'projecting a projection')
    perm = np.random.RandomState(case['perm']).permutation(n)
    yp = get_array(simplex_project_vector(x0[perm]), (n,), 'permuted')
    close(yp, expected[perm], 'the projection of the permuted vector')
    # In-place form.
    own = np.array(x0)
    simplex_project_vector(own, out=own)
    close(own, expected, 'the in-place projection')
    other = np.full(n, 3.5)
    simplex_project_vector(x, out=other)
    close(other, expected, 'the projection written to another array')
    require(np.array_equal(x, keep), 'the input was modified (out given)')
    ctx.label('n=1' if n == 1 else 'n>12' if n > 12 else 'n=2..12',
              'support %s' % ('1' if (expected > 0).sum() == 1 else
                              'full' if (expected > 0).all() else 'part'))
    if np.unique(x0).size < n:
        ctx.label('ties')
    ctx.mark(n > 1 and not np.allclose(expected, x0))


@st.composite
def matrix_case(draw):
    rows = draw(gen.sizes(1, 7, 40, huge=250))
    cols = draw(gen.sizes(1, 7, 40, huge=250))
    if draw(st.booleans()):
        a = np.array([draw(vectors(cols)) for _ in range(rows)]) \
            if rows * cols <= 60 else gen.draw_normal(draw, (rows, cols))
    else:
        a = gen.draw_data(draw, rows, cols, kinds=(
            'normal', 'generic', 'grid', 'const', 'outlier'), scale=True)[0]
    return {'a': a.reshape(rows, cols),
            'layout': draw(st.sampled_from(gen.LAYOUTS))}


def check_matrix(case, ctx):
    a0 = case['a']
    rows, cols = a0.shape
    ref_rows = np.array([reference(r) for r in a0])
    ref_cols = np.array([reference(c) for c in a0.T]).T
    a = gen.layout(a0, case['layout'])
    simplex_project_rows(a)
    close(get_array(a, a0.shape, 'the matrix'), ref_rows, 'row projection')
    b = gen.layout(a0, case['layout'])
    simplex_project_columns(b)
    close(get_array(b, a0.shape, 'the matrix'), ref_cols, 'column projection')
    ctx.label('wide' if cols > rows else 'tall' if rows > cols else 'square',
              case['layout'])
    if rows > 7 or cols > 7:
        ctx.label('large')
    ctx.mark(a0.size > 1)


def _v(x):
    return {'x': np.array(x, dtype='f8'), 'layout': 'C', 'perm': 1}


SUBS = [
    Sub('vector', lambda tier: vector_case(), check_vector, 6000, 200000,
        examples=[_v([1e18, 3e17]), _v([1e16, 0.0]), _v([0.0]), _v([5.0]),
                  _v([1e17, 1e17 - 50, 3.0]), _v([0.5, 0.5]),
                  _v([-1e9, -1e9, -1e9])]),
    Sub('matrix', lambda tier: matrix_case(), check_matrix, 2500, 60000),
]
