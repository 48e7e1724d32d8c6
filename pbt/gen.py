"""Hypothesis strategies producing plain-data cases.

Matrix entries are decoded from drawn byte strings, which is fast and shrinks
towards zeros.  Everything random in a case comes from Hypothesis.
"""
import numpy as np
from hypothesis import strategies as st


# Above this many entries only a seed is drawn.
MANY = 300


def _many(draw, n, top):
    seed = draw(st.integers(0, 2 ** 32 - 1))
    return np.random.RandomState(seed).randint(-top, top, n).astype('f8')


def _i16(draw, n):
    if n > MANY:
        return _many(draw, n, 32768)
    b = draw(st.binary(min_size=2 * n, max_size=2 * n))
    return np.frombuffer(b, dtype='<i2').astype('f8')


def _u8(draw, n):
    if n > MANY:
        return _many(draw, n, 128) + 128
    b = draw(st.binary(min_size=n, max_size=n))
    return np.frombuffer(b, dtype='u1').astype('f8')


def draw_matrix(draw, shape, span=4.0):
    """Generic matrix with entries in [-span, span]."""
    n = int(np.prod(shape))
    return (_i16(draw, n) * (span / 32768.0)).reshape(shape)


def draw_normal(draw, shape):
    """Matrix with well spread, order-one entries from a drawn seed.

    Used where the case needs generic position, e.g. well-conditioned
    problems; the seed is a drawn value, so the case is still a function of
    Hypothesis' choices.
    """
    seed = draw(st.integers(0, 2 ** 32 - 1))
    return np.random.RandomState(seed).standard_normal(shape)


def draw_grid(draw, shape, width=2):
    n = int(np.prod(shape))
    return (np.mod(_u8(draw, n), 2 * width + 1) - width).reshape(shape)


def stochastic_rows(draw, shape, kind=None):
    """Matrix with non-negative rows summing to one."""
    rows, cols = shape
    if kind is None:
        kind = draw(st.sampled_from(['seeded', 'seeded', 'generic', 'sparse',
                                     'onehot', 'uniform', 'mixed']))
    if kind == 'seeded':
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 32 - 1)))
        w = rng.exponential(size=shape) ** draw(st.sampled_from([0.5, 1, 3]))
        return w / w.sum(axis=1, keepdims=True)
    if kind == 'uniform':
        w = np.ones(shape)
    elif kind == 'onehot':
        idx = np.mod(_u8(draw, rows), cols).astype(int)
        w = np.zeros(shape)
        w[np.arange(rows), idx] = 1
    else:
        w = _u8(draw, rows * cols).reshape(shape)
        if kind == 'generic':
            w = w + 1
        elif kind == 'sparse':
            w = np.where(w < 128, 0, w)
        else:
            idx = np.mod(w[:, 0], 2) == 0
            one = np.zeros(shape)
            one[np.arange(rows), np.mod(w.sum(axis=1), cols).astype(int)] = 1
            w = np.where(idx[:, None], one, w + 1)
        empty = w.sum(axis=1) == 0
        w[empty] = 1
    return w / w.sum(axis=1, keepdims=True)


def stochastic_columns(draw, shape, kind=None):
    return stochastic_rows(draw, shape[::-1], kind).T.copy()


MATRIX_KINDS = ('normal', 'generic', 'grid', 'dup', 'neardup', 'lowrank',
                'convex', 'const', 'outlier')


def draw_data(draw, n, d, kinds=MATRIX_KINDS, scale=False, k=3, label=None):
    """Structured data matrix of shape (n, d); returns (matrix, kind)."""
    kind = draw(st.sampled_from(kinds))
    if kind == 'normal':
        x = draw_normal(draw, (n, d))
    elif kind == 'generic':
        x = draw_matrix(draw, (n, d))
    elif kind == 'grid':
        x = draw_grid(draw, (n, d))
    elif kind in ('dup', 'neardup'):
        m = draw(st.integers(1, max(1, min(4, n - 1))))
        base = draw_normal(draw, (m, d)) * 2
        x = base[np.mod(_u8(draw, n), m).astype(int)]
        if kind == 'neardup':
            x = x + 1e-9 * draw_matrix(draw, (n, d))
    elif kind == 'lowrank':
        r = draw(st.integers(1, max(1, min(n, d) - 1)))
        x = draw_normal(draw, (n, r)) @ draw_normal(draw, (r, d))
    elif kind == 'convex':
        m = draw(st.integers(1, max(1, k)))
        x = stochastic_rows(draw, (n, m)) @ (2 * draw_normal(draw, (m, d)))
    elif kind == 'const':
        x = np.tile(draw_matrix(draw, (1, d)), (n, 1))
    elif kind == 'outlier':
        x = draw_normal(draw, (n, d))
        x[draw(st.integers(0, n - 1))] *= 30
    else:
        raise ValueError(kind)
    if scale:
        how = draw(st.sampled_from(['none', 'none', 'offset', 'scale', 'both']))
        if how in ('offset', 'both'):
            x = x + draw(st.sampled_from([1.0, -10.0, 100.0, 1e4]))
        if how in ('scale', 'both'):
            x = x * 10.0 ** draw(st.integers(-6, 9))
    return np.ascontiguousarray(x), kind


def seeds():
    return st.integers(0, 2 ** 31 - 1)


def sizes(lo, hi, large=None, rare=12, huge=None):
    """Integer mostly in [lo, hi], sometimes up to `large`, rarely `huge`."""
    if huge is not None and huge > (large or hi):
        top = large or hi
        return st.integers(0, 6 * rare).flatmap(
            lambda r: st.integers(top, huge) if r == 6 * rare
            else sizes(lo, hi, large, rare))
    if large is None or large <= hi:
        return st.integers(lo, hi)
    return st.integers(0, rare).flatmap(
        lambda r: st.integers(hi, large) if r == rare else st.integers(lo, hi))


def lag_sets(max_lag=4, max_size=3):
    return st.lists(st.integers(1, max_lag), min_size=1, max_size=max_size,
                    unique=True)


def layout(x, how):
    """The same matrix with a different memory layout."""
    if how == 'F':
        return np.array(x, order='F')
    if how == 'strided':
        big = np.full(tuple(2 * s + 1 for s in x.shape), 7.25, dtype=x.dtype)
        view = big[tuple(slice(1, None, 2) for _ in x.shape)]
        view = view[tuple(slice(0, s) for s in x.shape)]
        view[...] = x
        return view
    if how == 'reversed':
        return x[tuple(slice(None, None, -1) for _ in x.shape)].copy()[
            tuple(slice(None, None, -1) for _ in x.shape)]
    return np.array(x, order='C')


LAYOUTS = ('C', 'F', 'strided', 'reversed')


def slow_selection(draw, k, tries=12):
    """Points and a start for which replacing the selected points one after
    the other by the furthest ones settles late."""
    rng = np.random.RandomState(draw(seeds()))
    n, d = draw(st.integers(10, 40)), draw(st.integers(1, 3))
    best = (-1,)
    for trial in range(tries):
        X = rng.standard_normal((n, d)) if trial % 2 else \
            rng.uniform(size=(n, d))
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
        for start in range(0, n, 3):
            sel, last = [start], -1
            for step in range(3 * k + 12):
                pos = step + 1 if step + 1 < k else (step + 1 - k) % k
                others = sel[:pos] + sel[pos + 1:]
                sums = D[others].sum(axis=0)
                sums[others] = -1
                new = int(sums.argmax())
                if pos < len(sel) and new != sel[pos]:
                    last = step
                sel[pos:pos + 1] = [new]
                if step > last + 2 * k + 1:
                    break
            if last > best[0]:
                best = (last, X, start)
    return best[1], best[2]
