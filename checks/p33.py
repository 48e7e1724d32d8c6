"""P33: FEM-BV results are equivariant under changes of coordinates."""
import numpy as np
from hypothesis import strategies as st

from checks import femb
from pbt import gen
from pbt.core import Sub, require

RULE = ('FEM-BV k-means and FEM-BV-VARX fits from custom affiliations are '
        'repeated, and new data transformed, with permuted components, '
        'rotated, reflected, translated and rescaled features, rescaled '
        'exogenous factors and (k-means) reversed time; affiliations, '
        'parameters and costs have to correspond. Non-trivial: two or more '
        'components and affiliations that are not all equal.')
ASSUMPTIONS = ['Agreement to 1e-5, data in generic position (problems whose '
               'own results move by more than 1e-6 under perturbations of '
               '1e-10 are set aside and counted). Regressions need a unique '
               'solution, and components different distances.']
TOL = 1e-5


@st.composite
def cases(draw, model):
    c = draw(femb.cases(models=(model,), custom=True, solvers=('HIGHS',),
                        iterations=(1, 4), large=40,
                        kinds=('normal', 'normal', 'regimes')))
    if model == 'kmeans':
        c['weights'] = gen.stochastic_rows(
            draw, c['weights'].shape, 'seeded')
        rel = ['components', 'features', 'translate', 'scale', 'reverse']
    else:
        c['weights'] = gen.stochastic_rows(
            draw, c['weights'].shape, 'seeded')
        rel = ['components', 'features', 'translate', 'scale']
        if 'u' in c:
            rel.append('exogenous')
    c['layout'] = 'C'
    # Parameters of empty components would survive.
    c['relation'] = draw(st.sampled_from(rel))
    c['other'] = draw(gen.seeds())
    return c


def outcome(c):
    r = femb.run(c)
    out = {'affiliations': r.G, 'cost': np.array([r.cost]),
           'transformed affiliations': femb.transform(c, r.model)}
    out.update({k: v for k, v in r.parameters(c).items() if v is not None})
    return out


def transformed(c):
    """The case in other coordinates, and the map of its results back."""
    q, rel = dict(c), c['relation']
    rng = np.random.RandomState(c['other'])
    d, k = c['X'].shape[1], c['k']
    kmeans = c['model'] == 'kmeans'
    if rel == 'components':
        s = rng.permutation(k)
        q['weights'] = c['weights'][:, s]
        for name in ('Theta', 'mu', 'A', 'B0'):
            if name in c:
                q[name] = c[name][s]
        if isinstance(c.get('memory'), list):
            q['memory'] = [c['memory'][i] for i in s]
        inv = np.argsort(s)

        def back(o):
            for name in o:
                if 'affiliations' in name:
                    o[name] = o[name][:, inv]
                elif name != 'cost':
                    o[name] = o[name][inv]
            return o
        return q, back
    if rel == 'reverse':
        q['X'], q['weights'], q['Y'] = (c[name][::-1].copy() for name in
                                        ('X', 'weights', 'Y'))

        def back(o):
            for name in o:
                if 'affiliations' in name:
                    o[name] = o[name][::-1]
            return o
        return q, back
    if rel == 'exogenous':
        t = 10.0 ** rng.uniform(-1, 1)
        q['u'], q['v'] = t * c['u'], t * c['v']
        q['B0'] = c['B0'] / t

        def back(o):
            o['B0'] = t * o['B0']
            return o
        return q, back
    # Affine maps of the features: x -> f x R + b.
    R, b, f = np.eye(d), np.zeros(d), 1.0
    if rel == 'features':
        R = np.linalg.qr(rng.standard_normal((d, d)))[0]
        if rng.uniform() < 0.3:
            R = np.eye(d)[rng.permutation(d)]
    elif rel == 'translate':
        b = c['scale'] * rng.uniform(-2, 2, size=d)
    else:
        f = 10.0 ** (rng.uniform(-2, 2) if rng.uniform() < 0.5 else
                     rng.uniform(-7, 7))
        # Regressions on data beyond these sizes and a constant one are
        # singular in double precision.
        f = min(max(f, 1e-10 / c['scale']), 1e10 / c['scale'])
    q['X'], q['Y'] = f * c['X'].dot(R) + b, f * c['Y'].dot(R) + b
    q['scale'] = c['scale'] * f

    def there(p, R, b, f):
        """Parameters in the coordinates f x R + b."""
        p = dict(p)
        if 'Theta' in p:
            p['Theta'] = f * p['Theta'].dot(R) + b
        if 'B0' in p:
            p['B0'] = f * np.einsum('ab,kac->kbc', R, p['B0'])
        if 'A' in p:
            p['A'] = np.einsum('ab,kmac,cd->kmbd', R, p['A'], R)
        if 'mu' in p:
            p['mu'] = f * p['mu'].dot(R) + b
            if 'A' in p:
                p['mu'] = p['mu'] - np.einsum('kmab,b->ka', p['A'], b)
        return p

    q.update(there({name: c[name] for name in ('Theta', 'mu', 'A', 'B0')
                    if name in c}, R, b, f))

    def back(o):
        o = there(o, R.T, -b.dot(R.T) / f, 1 / f)
        o['cost'] = o['cost'] / f ** 2
        return o
    return q, back


def sizes(c, o):
    s = c['scale']
    u = float(np.abs(c['u']).max()) if 'u' in c else 1.0
    return {'affiliations': 1.0, 'transformed affiliations': 1.0,
            'cost': s * s + float((c['X'] ** 2).sum()),
            'Theta': s + float(np.abs(c['X']).max()),
            'mu': s + float(np.abs(o.get('mu', o['cost'])).max()),
            'A': 1.0 + float(np.abs(o.get('A', o['cost'])).max()),
            'B0': s / u + float(np.abs(o.get('B0', o['cost'])).max())}


def deviation(a, b, size):
    return {name: float(np.abs(a[name] - b[name]).max()) / size[name]
            for name in a}


def sensitive(c, base, size):
    for t in range(4):
        rng = np.random.RandomState(t)
        q = dict(c)
        for name in ('X', 'Y', 'weights'):
            q[name] = c[name] + 1e-10 * float(np.abs(c[name]).max()) * \
                rng.uniform(-1, 1, size=c[name].shape)
        q['weights'] = np.abs(q['weights'])
        q['weights'] /= q['weights'].sum(axis=1)[:, None]
        dev = deviation(outcome(q), base, size)
        if not max(dev.values()) <= 1e-6:
            return True
    return False


def undetermined(c):
    """Whether some regression has no unique solution."""
    if c['model'] == 'kmeans':
        return False
    memory = femb.lengths(c['memory'], c['k'])
    m = max(memory)
    rows = [c['weights']] + [femb.run(c, max_iterations=i).G
                             for i in range(1, c['max_iterations'])]
    n = len(c['X'])
    for j in range(c['k']):
        blocks = [np.ones((n - m, 1))]
        blocks += [c['X'][m - l:n - l] for l in range(1, memory[j] + 1)]
        if 'u' in c:
            blocks.append(c['u'][m:])
        z = np.hstack(blocks)
        for G in rows:
            a = np.sqrt(G[:, j])[:, None] * z
            s = np.linalg.svd(a / (np.abs(z).max(axis=0) + 1e-300),
                              compute_uv=False)
            if len(a) < a.shape[1] or s[-1] < 1e-5:
                return True
    return False


def ambiguous(c):
    """Whether some affiliations are not determined by the distances."""
    for i in range(1, c['max_iterations'] + 1):
        r = femb.run(c, max_iterations=i)
        if femb.ambiguous(r.distances(c, c['X'], c.get('u')),
                          c['max_tv_norm']) or \
                femb.ambiguous(r.distances(c, c['Y'], c.get('v')),
                               c['max_tv_norm']):
            return True
    return False


def check(case, ctx):
    base = outcome(case)
    q, back = transformed(case)
    other = back(outcome(q))
    size = sizes(case, base)
    dev = deviation(base, other, size)
    bad = [name for name in dev if not dev[name] <= TOL]
    good = True
    if bad and femb.INACCURATE:
        ctx.label('inaccurate according to the solver')
        good = False
    elif bad and undetermined(case):
        ctx.label('regression without unique solution')
        good = False
    elif bad and ambiguous(case):
        ctx.label('affiliations not determined by the distances')
        good = False
    elif bad and sensitive(case, base, size):
        ctx.label('sensitive to rounding')
        good = False
    else:
        for name in bad:
            require(False, '%s: the %s change by %g (relative)',
                    case['relation'], name, dev[name])
    femb.labels(case, ctx)
    ctx.label(case['relation'])
    ctx.mark(good and case['k'] > 1 and float(np.ptp(base['affiliations'],
                                                     axis=0).max()) > 1e-3)


SUBS = [Sub('kmeans', lambda tier: cases('kmeans'), check, 800, 20000),
        Sub('varx', lambda tier: cases('varx'), check, 800, 20000)]
