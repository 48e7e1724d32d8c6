"""P11: archetypal analysis depends on the data only through its kernel."""
import numpy as np
from hypothesis import strategies as st

from checks import equiv, fact
from pbt import gen
from pbt.core import Sub, get_array, require

RULE = ('Data in generic position; the fit and the transform of the data are '
        'compared with those of kernel archetypal analysis of its Gram '
        'matrix or of the kernel function values, and with those of rotated '
        'and translated data. Non-trivial: two or more components and a '
        'dictionary that is not the initial one.')
ASSUMPTIONS = ['Agreement to 1e-6; at most six iterations, so that rounding is '
               'not amplified (cases which are themselves sensitive to '
               'perturbations of 1e-13 are set aside and counted). '
               'Translation invariance is only claimed without relaxation '
               '(delta=0).']


def rbf(X):
    return np.exp(-0.3 * ((X[:, None] - X[None]) ** 2).sum(axis=2))


def poly(X):
    return (1 + X.dot(X.T)) ** 2


def linear(X):
    return X.dot(X.T)


def scaled(X):
    return X.dot(np.diag(1.0 + np.arange(X.shape[1])).dot(X.T))


KERNELS = {'rbf': rbf, 'poly': poly, 'linear': linear, 'scaled': scaled}


@st.composite
def cases(draw, relations):
    p = draw(fact.problems(methods=('aa',), n=(4, 9), d=(1, 4), k=(1, 4),
                           kinds=('normal',), weights_kind='seeded',
                           inits=('random', 'furthest_sum', None, 'custom')))
    n, d = p['X'].shape
    if relations != ('same',) and (
            d == 1 or p['k'] == 1 or p['kind'] != 'normal') and \
            p['init'] in ('furthest_sum', None):
        # Exact ties of the FurthestSum selection would be broken by rounding.
        p['init'] = 'random'
    c = {'p': p, 'relation': draw(st.sampled_from(relations)),
         'kernel': draw(st.sampled_from(sorted(KERNELS) + ['none'])),
         'new': gen.draw_normal(draw, (n, d)),
         'shift': gen.draw_matrix(draw, (1, d)),
         'rot': gen.draw_normal(draw, (d, d)),
         'embed': draw(st.integers(0, 2))}
    return c


def rotation(case):
    d = case['rot'].shape[0]
    q = np.linalg.qr(case['rot'] + 1e-3 * np.eye(d))[0]
    if case['embed']:
        # Also into a higher dimensional space.
        q = np.hstack([q, np.zeros((d, case['embed']))])
        full = np.random.RandomState(d).standard_normal((q.shape[1],) * 2)
        q = q.dot(np.linalg.qr(full)[0])
    return q


def check_kernel(case, ctx):
    """ArchetypalAnalysis(X) against KernelAA(kernel(X))."""
    p = case['p']
    name = case['kernel']
    func = KERNELS.get(name)
    k, n = p['k'], p['X'].shape[0]
    model = fact.build(p, **({'kernel_func': func} if func else {}))
    W = model.fit_transform(p['X'].copy(), **fact.fit_kwargs(p))
    W = get_array(W, (n, k), 'the weights')
    K = (func or linear)(p['X'])
    other = fact.build(dict(p, method='kaa'))
    V = get_array(other.fit_transform(K.copy(), **fact.fit_kwargs(p)), (n, k),
                  'the weights')

    def same(a, b, what):
        e = float(np.abs(a - b).max())
        require(e <= 1e-9, 'archetypal analysis and kernel archetypal '
                'analysis of its kernel differ in %s by %g', what, e)

    same(W, V, 'the weights')
    same(model.dictionary_, other.dictionary_, 'the dictionary')
    ck = n * float(np.abs(np.diag(K)).max()) * 4
    require(abs(model.cost_ - other.cost_) <= 1e-9 * ck, 'costs %r and %r',
            model.cost_, other.cost_)
    # The kernel cost is the feature space reconstruction error.
    R = np.eye(n) - W.dot(model.dictionary_)
    value = float(np.einsum('ij,jk,ik->', R, K, R))
    require(abs(value - model.cost_) <= 1e-9 * ck * 4,
            'cost_ %r, but the kernel reconstruction error is %r',
            model.cost_, value)
    new = case['new']
    same(get_array(model.transform(new.copy()), (n, k), 'the weights'),
         get_array(other.transform((func or linear)(new)), (n, k), 'weights'),
         'the transformed weights')
    fact.labels(p, ctx)
    ctx.label('kernel ' + name)
    ctx.mark(k > 1)


def check_geometry(case, ctx):
    """Rotating or translating the data changes nothing."""
    p = case['p']
    f = fact.run(p)
    rel = case['relation']
    X = p['X']
    if rel in ('rotate', 'both'):
        X = X.dot(rotation(case))
    if rel in ('translate', 'both') and not p.get('delta'):
        X = X + np.resize(case['shift'], (1, X.shape[1]))
    q = dict(p, X=X)
    g = fact.run(q)
    amp = (1 + equiv.size(X) ** 2) / (1 + equiv.size(p['X']) ** 2)
    good = equiv.compare(p, f, equiv.results(g), ctx, rel, max(1.0, amp))
    if p['init'] in ('random', 'custom') and good:
        W = get_array(f.model.transform(p['X'].copy()), f.W.shape, 'weights')
        V = get_array(g.model.transform(X.copy()), f.W.shape, 'weights')
        e = float(np.abs(W - V).max())
        if e > 1e-5 * max(1.0, amp):
            # Judge the sensitivity of the transform itself.
            h = fact.run(dict(p, X=p['X'] * (1 + 1e-13)))
            U = h.model.transform(p['X'] * (1 + 1e-13))
            if np.abs(U - W).max() < 1e-9:
                require(False, '%s changes the transformed weights by %g', rel,
                        e)
            ctx.label('transform sensitive to rounding')
    fact.labels(p, ctx)
    ctx.label(rel)
    ctx.mark(p['k'] > 1 and good)


SUBS = [
    Sub('kernel', lambda tier: cases(('same',)), check_kernel, 1500, 40000),
    Sub('geometry', lambda tier: cases(('rotate', 'translate', 'both')),
        check_geometry, 1500, 40000),
]
