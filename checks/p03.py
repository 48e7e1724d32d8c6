"""P03: random stochastic matrices."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, get_array, require
from reor._random_matrix import left_stochastic_matrix, right_stochastic_matrix

RULE = ('All shapes up to 12 x 12 (rarely 60), seeds given as integers, '
        'generators or through the global generator. Non-trivial: the shape '
        'leaves freedom (more than one entry per normalised line).')
ASSUMPTIONS = ['Sums to one within 1e-12.']


@st.composite
def cases(draw):
    return {'rows': draw(gen.sizes(1, 12, 60, huge=500)),
            'cols': draw(gen.sizes(1, 12, 60, huge=500)),
            'left': draw(st.booleans()), 'seed': draw(gen.seeds()),
            'other': draw(gen.seeds()), 'draws': draw(st.integers(2, 4)),
            'numpy_int': draw(st.booleans())}


def check(case, ctx):
    shape = (case['rows'], case['cols'])
    make = left_stochastic_matrix if case['left'] else right_stochastic_matrix
    axis = 0 if case['left'] else 1
    seed = case['seed']

    def good(m):
        m = get_array(m, shape, 'the matrix')
        require(bool((m >= 0).all()), 'negative entry')
        require(bool((np.abs(m.sum(axis=axis) - 1) <= 1e-12).all()),
                'sums along axis %d are %r', axis, m.sum(axis=axis)[:5])
        return m

    s = np.int64(seed) if case['numpy_int'] else seed
    a = good(make(shape, random_state=s))
    require(np.array_equal(a, good(make(shape, random_state=seed))),
            'equal seeds give different matrices')
    before = np.random.get_state()[1].tolist()
    b = good(make(shape, random_state=np.random.RandomState(seed)))
    require(np.array_equal(a, b), 'a generator with the same seed gives a '
            'different matrix')
    require(np.random.get_state()[1].tolist() == before,
            'the global generator was used')
    free = shape[axis] > 1
    if case['other'] != seed and free:
        require(not np.array_equal(a, good(make(shape, case['other']))),
                'different seeds give equal matrices')
    # A shared generator advances, and is the only source of randomness.
    rng = np.random.RandomState(seed)
    first = [good(make(shape, rng)) for _ in range(case['draws'])]
    rng = np.random.RandomState(seed)
    second = [good(make(shape, rng)) for _ in range(case['draws'])]
    require(all(np.array_equal(x, y) for x, y in zip(first, second)),
            'a shared generator does not determine the sequence')
    if free:
        require(not np.array_equal(first[0], first[1]),
                'a shared generator does not advance')
        # Lines are not copies of each other.
        lines = a.T if case['left'] else a
        if len(lines) > 1:
            require(not np.array_equal(lines[0], lines[1]), 'equal lines')
    # The global generator is the default.
    np.random.seed(case['other'])
    g = good(make(shape))
    np.random.seed(case['other'])
    require(np.array_equal(g, good(make(shape, random_state=None))),
            'the default is not the global generator')
    ctx.label('left' if case['left'] else 'right',
              'square' if shape[0] == shape[1] else 'rectangular')
    ctx.mark(free)


SUBS = [Sub('matrix', lambda tier: cases(), check, 3000, 60000)]
