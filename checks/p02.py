"""P02: FurthestSum."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, Violation, require
from reor.furthest_sum import furthest_sum

RULE = ('Symmetric dissimilarity matrices (Euclidean distances of structured '
        'point sets, random symmetric, integer valued with many ties), all '
        'admissible sizes, exclusions, start indices and numbers of extra '
        'steps. Every prefix of the selection is judged by the greedy rule '
        'evaluated from the definition, with a tolerance for ties. '
        'Non-trivial: at least two components and a real choice.')
ASSUMPTIONS = ['Dissimilarities are symmetric with zero diagonal; candidates '
               'whose sums differ by rounding only are considered tied. The '
               'selection is deterministic, so the run with fewer extra steps '
               'shows the intermediate states of a longer one.']


def greedy_choice(D, chosen, candidates, pick, what):
    """`pick` maximises the summed dissimilarity to `chosen`."""
    require(pick in candidates, '%s: index %r is not available', what, pick)
    sums = {c: float(np.sum(D[c, chosen])) for c in candidates}
    best = max(sums.values())
    tol = 1e-9 * (1e-300 + float(np.abs(D).max())) * (1 + len(chosen))
    require(sums[pick] >= best - tol,
            '%s: index %d has summed dissimilarity %r, but %r is possible',
            what, pick, sums[pick], best)
    return sum(1 for s in sums.values() if s < best - tol) > 0


def to_indices(sel, k, n):
    require(len(sel) == k, 'got %d indices instead of %d', len(sel), k)
    out = []
    for i in sel:
        require(isinstance(i, (int, np.integer)), 'index %r', i)
        require(0 <= i < n, 'index %r is out of range', i)
        out.append(int(i))
    require(len(set(out)) == k, 'repeated indices in %r', out)
    return out


def validate(select, D, k, exclude, start, extra):
    """Judge `select(k, extra)`; returns whether a real choice occurred."""
    n = D.shape[0]
    allowed = [i for i in range(n) if i not in exclude]
    first = to_indices(select(k, 0), k, n)
    if start is not None:
        require(first[0] == start, 'the first index is %r, not the start '
                'index %r', first[0], start)
    require(first[0] in allowed, 'excluded start %r', first[0])
    choice = False
    for i in range(1, k):
        cand = [c for c in allowed if c not in first[:i]]
        choice |= greedy_choice(D, first[:i], cand, first[i],
                                'selection %d' % i)
    current = first
    for step in range(extra):
        new = to_indices(select(k, step + 1), k, n)
        pos = step % k
        for i in range(k):
            require(i == pos or new[i] == current[i],
                    'extra step %d changed position %d', step, i)
        others = [c for i, c in enumerate(current) if i != pos]
        cand = [c for c in allowed if c not in others]
        choice |= greedy_choice(D, others, cand, new[pos],
                                'extra step %d' % step)
        current = new
    return choice


@st.composite
def dissimilarities(draw, n):
    kind = draw(st.sampled_from(['points', 'points', 'random', 'ties']))
    if kind == 'points':
        x, _ = gen.draw_data(draw, n, draw(st.integers(1, 3)))
        D = np.sqrt(((x[:, None] - x[None]) ** 2).sum(axis=2))
    else:
        a = (np.abs(gen.draw_matrix(draw, (n, n))) if kind == 'random'
             else np.abs(gen.draw_grid(draw, (n, n))))
        D = np.tril(a, -1)
        D = D + D.T
    return D, kind


@st.composite
def cases(draw):
    if draw(st.integers(0, 9)) == 9:
        # Points for which the extra steps settle late.
        k = draw(st.integers(2, 5))
        x, start = gen.slow_selection(draw, k)
        return {'D': np.sqrt(((x[:, None] - x[None]) ** 2).sum(axis=2)),
                'kind': 'slow', 'k': k, 'exclude': [], 'start': start,
                'extra': draw(st.integers(k, 4 * k + 4)),
                'layout': draw(st.sampled_from(gen.LAYOUTS)),
                'container': draw(st.sampled_from(['list', 'array', 'none']))}
    n = draw(gen.sizes(1, 10, 30, huge=140))
    D, kind = draw(dissimilarities(n))
    k = draw(st.integers(1, n))
    if draw(st.booleans()):
        k = min(k, 4)
    perm = np.random.RandomState(draw(gen.seeds())).permutation(n).tolist()
    n_ex = draw(st.integers(0, n - k)) if draw(st.booleans()) else 0
    exclude = perm[1:1 + n_ex]
    if exclude and draw(st.integers(0, 3)) == 3:
        exclude = exclude + exclude[:draw(st.integers(1, 3))]
    return {'D': D, 'kind': kind, 'k': k, 'exclude': exclude,
            'start': perm[0], 'extra': draw(st.integers(0, 2 * k + 1)),
            'layout': draw(st.sampled_from(gen.LAYOUTS)),
            'container': draw(st.sampled_from(['list', 'array', 'none']))}


def check(case, ctx):
    D, k, extra = case['D'], case['k'], case['extra']
    arg = gen.layout(D, case['layout'])
    exclude = case['exclude']
    ex = np.array(exclude, dtype='i8') if case['container'] == 'array' \
        else None if case['container'] == 'none' and not exclude else exclude

    def select(kk, steps):
        keep = list(exclude)
        out = furthest_sum(arg, kk, case['start'], exclude=ex,
                           extra_steps=steps)
        require(np.array_equal(arg, D), 'the matrix was modified')
        require(list(exclude) == keep, 'the exclusions were modified')
        return np.array(out)

    choice = validate(select, D, k, exclude, case['start'], extra)
    require(list(furthest_sum(arg, k, case['start'], ex)) ==
            list(select(k, 1)), 'extra_steps does not default to 1')
    ctx.label(case['kind'], 'extra>k' if extra > k else 'extra<=k',
              'exclude' if exclude else 'no exclusion',
              'all' if k == len(D) - len(set(exclude)) else 'subset')
    if len(set(exclude)) < len(exclude):
        ctx.label('repeated exclusions')
    ctx.mark(choice)


@st.composite
def bad_cases(draw):
    n = draw(st.integers(2, 8))
    D, _ = draw(dissimilarities(n))
    how = draw(st.sampled_from(['nonsquare', 'start', 'negative', 'excluded',
                                'toomany']))
    return {'D': D, 'how': how, 'a': draw(st.integers(0, 5)),
            'perm': np.random.RandomState(draw(gen.seeds())).permutation(n),
            'extra': draw(st.integers(0, 3))}


def check_bad(case, ctx):
    D, how, a = case['D'], case['how'], case['a']
    n = D.shape[0]
    perm = case['perm'].tolist()
    k, start, exclude = 1 + a % (n - 1), perm[0], None
    if how == 'nonsquare':
        D = D[:, :-1] if a % 2 else D[:-1]
        k, start = 1, 0
    elif how == 'start':
        start = n + a
    elif how == 'negative':
        start = -1 - a
    elif how == 'excluded':
        k = 1
        exclude = perm[:1 + a % (n - 1)]
    else:
        exclude = perm[1:1 + a % n]
        k = n - len(exclude) + 1 + a % 3
    keep = D.copy()
    try:
        furthest_sum(D, k, start, exclude=exclude, extra_steps=case['extra'])
    except ValueError:
        pass
    else:
        raise Violation('invalid call (%s) was accepted' % how)
    require(np.array_equal(D, keep), 'the matrix was modified')
    ctx.label(how)
    ctx.mark()


SUBS = [Sub('selection', lambda tier: cases(), check, 8000, 200000),
        Sub('rejected', lambda tier: bad_cases(), check_bad, 800, 10000)]
