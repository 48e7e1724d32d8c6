"""P12: equivariance under relabelling, rotation and translation."""
import numpy as np
from hypothesis import strategies as st

from checks import equiv, fact
from pbt import gen
from pbt.core import Sub

RULE = ('Fits from custom initial guesses are repeated with permuted samples '
        '(archetypal analysis, GPNH), permuted components (all methods) and '
        'rotated, reflected or translated features (GPNH, MTD); the results '
        'have to correspond. Non-trivial: a non-trivial transformation of a '
        'fit with two or more components.')
ASSUMPTIONS = ['Agreement to 1e-6; at most six iterations on data in generic '
               'position (cases which are themselves sensitive to '
               'perturbations of 1e-13 are set aside and counted).']


@st.composite
def cases(draw, large=False):
    rel = draw(st.sampled_from(['samples', 'components', 'features',
                                'translate']))
    methods = {'samples': ('aa', 'kaa', 'gpnh'),
               'components': ('aa', 'kaa', 'gpnh', 'mtd'),
               'features': ('gpnh', 'mtd'), 'translate': ('gpnh', 'mtd')}[rel]
    p = draw(fact.problems(methods=methods, inits=('custom',), n=(4, 9),
                           d=(1, 4), k=(1, 4), big=1 if large else 9,
                           huge='always' if large else False,
                           kinds=('normal',), weights_kind='seeded'))
    n, d = p['X'].shape
    return {'p': p, 'relation': rel, 'perm': draw(gen.seeds()),
            'rot': gen.draw_normal(draw, (d, d)),
            'shift': gen.draw_matrix(draw, (1, d))}


def transformed(case):
    """The transformed problem and the map from its results back."""
    p, rel = case['p'], case['relation']
    q = dict(p)
    rng = np.random.RandomState(case['perm'])
    if rel == 'samples':
        s = rng.permutation(p['X'].shape[0])
        q['X'] = p['X'][s]
        q['weights'] = p['weights'][s]
        if p['method'] in fact.AA_LIKE:
            q['dictionary'] = p['dictionary'][:, s]
        inv = np.argsort(s)

        def back(r):
            r['weights'] = r['weights'][inv]
            if p['method'] in fact.AA_LIKE:
                r['dictionary'] = r['dictionary'][:, inv]
            return r
        return q, back, not np.array_equal(s, np.arange(s.size))
    if rel == 'components':
        s = rng.permutation(p['k'])
        q['weights'] = p['weights'][:, s]
        q['dictionary'] = p['dictionary'][s]
        inv = np.argsort(s)
        if p['method'] == 'mtd':
            q['transition_matrices'] = p['transition_matrices'][:, s][:, :, s]

        def back(r):
            r['weights'] = r['weights'][:, inv]
            r['dictionary'] = r['dictionary'][inv]
            if p['method'] == 'mtd':
                r['transition matrices'] = \
                    r['transition matrices'][:, inv][:, :, inv]
            return r
        return q, back, not np.array_equal(s, np.arange(s.size))
    if rel == 'features':
        d = p['X'].shape[1]
        if case['perm'] % 3 == 0:
            R = np.eye(d)[rng.permutation(d)]
        elif case['perm'] % 3 == 1:
            R = np.diag(np.where(rng.uniform(size=d) < 0.7, -1.0, 1.0))
        else:
            R = np.linalg.qr(case['rot'] + 1e-3 * np.eye(d))[0]
        q['X'] = p['X'].dot(R)
        q['dictionary'] = p['dictionary'].dot(R)

        def back(r):
            r['dictionary'] = r['dictionary'].dot(R.T)
            return r
        return q, back, not np.array_equal(R, np.eye(d))
    q['X'] = p['X'] + case['shift']
    q['dictionary'] = p['dictionary'] + case['shift']

    def back(r):
        r['dictionary'] = r['dictionary'] - case['shift']
        return r
    return q, back, bool(np.abs(case['shift']).max() > 0)


def check(case, ctx):
    p, rel = case['p'], case['relation']
    f = fact.run(p)
    q, back, real = transformed(case)
    g = fact.run(q)
    amp = max(1.0, (1 + equiv.size(q['X']) ** 2) /
              (1 + equiv.size(p['X']) ** 2))
    good = equiv.compare(p, f, back(equiv.results(g)), ctx,
                         'the transformation (%s)' % rel, amp)
    fact.labels(p, ctx)
    ctx.label(rel)
    ctx.mark(p['k'] > 1 and real and good)


SUBS = [Sub('relations', lambda tier: cases(), check, 3000, 80000),
        Sub('large', lambda tier: cases(True), check, 200, 5000)]
