"""P16: operation sequences do not disturb inputs, results or the model."""
import numpy as np
from hypothesis import strategies as st

from sklearn.neighbors import KNeighborsClassifier

from checks import fact, models
from pbt import gen
from pbt.core import Sub, require
from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
from reor.crom import KMeansMarkovCROM
from reor.fembv_kmeans import FEMBVKMeans
from reor.fembv_varx import FEMBVVARX
from reor.gpnh_convex_coding import GPNHConvexCoding
from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
from reor.mtd_convex_coding import MTDConvexCoding
from reor.pwvarx import ClusterPWVARX

RULE = ('A sequence of fit / fit_transform / fit_predict / transform / predict '
        '/ inverse_transform calls with generated arguments (two data sets of '
        'possibly different length, several memory layouts, custom initial '
        'guesses) is run on one object. After every call all arrays ever '
        'passed or returned must be bitwise what they were, calls that do not '
        'fit must leave the fitted parameters alone, and a refit that involves '
        'no randomness, or only a seed, must equal that of a fresh object. '
        'Non-trivial: a further call follows a transform or a refit.')
ASSUMPTIONS = ['Archetypal analysis can only transform as many samples as it '
               'was fitted to. The affiliations held by FEM-BV models are '
               'working state, not fitted parameters.']


@st.composite
def cases(draw):
    c = draw(models.cases(inits=('custom', 'custom', 'random', None,
                                 'furthest_sum'), iterations=(1, 4)))
    est, n_new = c['est'], c['Y'].shape[0]
    names = ['fit', 'fit_transform', 'transform', 'transform']
    if est in models.FACT:
        c['p']['fixed'] = c['p']['fixed'] if draw(st.booleans()) else []
        p2 = dict(c['p'], X=c['Y'])
        if 'weights' in p2:
            p2['weights'] = gen.stochastic_rows(draw, (n_new, c['k']),
                                                'seeded')
        if 'dictionary' in p2:
            p2['dictionary'] = gen.stochastic_rows(
                draw, (c['k'], n_new), 'seeded') if est in fact.AA_LIKE \
                else gen.draw_normal(draw, p2['dictionary'].shape)
        c['p2'] = p2
        names += ['inverse_transform', 'inverse_transform']
        c['W'] = gen.stochastic_rows(draw, (draw(st.integers(1, 5)), c['k']))
    elif est in models.FEMBV and c['custom']:
        m = c['X'].shape[0] - c['weights'].shape[0]
        c['weights2'] = gen.stochastic_rows(draw, (n_new - m, c['k']),
                                            'seeded')
    if est in fact.MTD_LIKE or est == 'kmeans-crom':
        names += ['predict', 'predict']
    if est == 'kmeans-crom':
        names += ['fit_predict']
    c['start'] = draw(st.sampled_from(['X', 'Y']))
    if est == 'kmeans-crom' and n_new < 6:
        c['start'] = 'X'
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(names))
        on = draw(st.sampled_from(['X', 'Y']))
        if est == 'kmeans-crom' and n_new < 6 and op.startswith('fit'):
            on = 'X'
        ops.append([op, on, draw(st.integers(0, 3)),
                    draw(st.sampled_from(gen.LAYOUTS))])
    c['ops'] = ops
    c['reuse'] = draw(st.booleans())
    c['layout'] = draw(st.sampled_from(gen.LAYOUTS))
    return c


class Tracker:
    """Every array that was ever passed or returned."""

    def __init__(self):
        self.items = []

    def add(self, what, x):
        if isinstance(x, dict):
            for k, v in x.items():
                self.add('%s[%r]' % (what, k), v)
        elif isinstance(x, np.ndarray):
            self.items.append((what, x, x.copy()))

    def scribble(self):
        """Overwrite everything that was passed."""
        keep = []
        for item in self.items:
            if ' passed to ' in item[0]:
                if item[1].flags.writeable:
                    item[1][...] = 7
            else:
                keep.append(item)
        self.items = keep

    def check(self, after):
        for what, x, old in self.items:
            require(models.same(x, old), '%s changed the array %s', after,
                    what)


def fit_arguments(c, on):
    if on == 'X':
        return models.fit_arguments(c)
    d = dict(c, X=c['Y'])
    if 'p2' in c:
        d['p'] = c['p2']
    if 'weights2' in c:
        d['weights'] = c['weights2']
    if 'v' in c:
        d['u'] = c['v']
    if 'w' in c:
        d['w'] = np.linspace(1, 2, c['Y'].shape[0])
    return models.fit_arguments(d)


def parameters(c, model):
    out = dict(models.fitted(c, model))
    if hasattr(model, 'n_iter_'):
        out['n_iter_'] = model.n_iter_
    return out


def repeatable(c):
    """Names of the fitted parameters a refit has to reproduce."""
    est = c['est']
    names = models.FITTED[est]
    if est in ('aa', 'kaa', 'kmeans-crom', 'pwvarx'):
        return names
    if est in models.FEMBV:
        return names if c['custom'] else ()
    if c['p']['init'] != 'custom':
        return ()
    if est == 'crom':
        # Its Markov model starts from a random guess.
        return ('dictionary_', 'cost_')
    return names


def check(case, ctx):
    est = case['est']
    model = models.make(case, case['seed'])
    tracker = Tracker()
    history = []

    def call(op, on, number, layout):
        if op == 'inverse_transform':
            x, kw = case['W'], {}
        elif op.startswith('fit'):
            x, kw = fit_arguments(case, on)
        else:
            x, kw = models.transform_arguments(case, on)
            if op == 'predict':
                kw = {'horizon': number}
        x = gen.layout(x, layout)
        kw = {k: gen.layout(v, layout) if isinstance(v, np.ndarray) else v
              for k, v in kw.items()}
        tracker.add('%s passed to %s' % (on, op), x)
        for k, v in kw.items():
            tracker.add('%s passed to %s' % (k, op), v)
        result = getattr(model, op)(x, **kw)
        name = '%s of %s' % (op, est)
        tracker.check('%s after %s' % (name, history) if history else name)
        if isinstance(result, np.ndarray):
            tracker.add('returned by %s' % op, result)
        return result, name

    def fit(op, on, layout):
        result, name = call(op, on, 0, layout)
        keep = repeatable(case)
        if keep:
            fresh = models.make(case, case['seed'])
            x, kw = fit_arguments(case, on)
            expected = getattr(fresh, op)(gen.layout(x, layout), **{
                k: gen.layout(v, layout) if isinstance(v, np.ndarray) else v
                for k, v in kw.items()})
            for k in keep:
                require(models.close(getattr(model, k), getattr(fresh, k),
                                     1e-6),
                        '%s after %s gives a different %s than a fresh '
                        'object', name, history, k)
            if isinstance(result, np.ndarray):
                require(models.close(result, expected, 1e-6),
                        '%s after %s returns something different from a '
                        'fresh object', name, history)
        else:
            require(op != 'fit' or result is model, 'fit returns %r', result)
        if case['reuse']:
            # The caller may use the arrays passed for something else.
            held = dict(models.fitted(case, model))
            if est in models.FEMBV:
                held['Gamma'] = model.Gamma
            old = {k: models.snapshot(v) for k, v in held.items()}
            tracker.scribble()
            for k in held:
                require(models.same(held[k], old[k]), '%s of %s shares memory '
                        'with an array passed to %s', k, est, op)
        for k, v in models.fitted(case, model).items():
            tracker.add('attribute %s after %s' % (k, op), v)

    first = 'fit' if case['layout'] != 'F' else 'fit_transform'
    fit(first, case['start'], case['layout'])
    history.append('%s(%s)' % (first, case['start']))
    fitted_on = case['start']
    for op, on, number, layout in case['ops']:
        ctx.mark(len(history) > 1)
        if op.startswith('fit'):
            fit(op, on, layout)
            fitted_on = on
        else:
            before = parameters(case, model)
            old = {k: models.snapshot(v) for k, v in before.items()}
            _, name = call(op, on, number, layout)
            after = parameters(case, model)
            for k in old:
                require(models.same(after[k], old[k]),
                        '%s changes the fitted %s', name, k)
        history.append('%s(%s)' % (op, on))
        ctx.label('%s %s' % (est, op))
    ctx.label('ops=%d' % len(case['ops']),
              'refit' if any(h.startswith('fit') for h in history[1:])
              else 'no refit', fitted_on)


def other_data(draw, c):
    """The same estimator with entirely different data."""
    est, k = c['est'], c['k']
    d = draw(st.integers(1, 4))
    same_shape = draw(st.booleans())
    if same_shape:
        d = c['X'][0].size
    if est in models.FACT:
        p = c['p']
        low = max(3, k, max(p.get('lags', [0])) + 1)
        n = draw(st.integers(low, low + 6))
        if same_shape:
            n = len(c['X'])
        p2 = dict(p, X=gen.draw_normal(draw, (n, d)))
        if 'weights' in p2:
            p2['weights'] = gen.stochastic_rows(draw, (n, k), 'seeded')
        if 'dictionary' in p2:
            p2['dictionary'] = gen.stochastic_rows(draw, (k, n), 'seeded') \
                if est in fact.AA_LIKE else gen.draw_normal(draw, (k, d))
        return dict(c, p=p2, X=p2['X'])
    n = draw(st.integers(16, 24))
    if same_shape:
        n = len(c['X'])
    c2 = dict(c, X=gen.draw_normal(draw, (n, d)))
    for name in ('u', 'v', 'w', 'parameters'):
        c2.pop(name, None)
    if est == 'kmeans-crom':
        if draw(st.booleans()):
            c2['w'] = 0.5 + np.abs(gen.draw_normal(draw, (n,)))
        return c2
    if draw(st.booleans()) and (est == 'fembv-varx' or c.get('s')):
        c2['u'] = gen.draw_normal(draw, (n, draw(st.integers(1, 3))))
    if est == 'pwvarx':
        if d == 1 and draw(st.booleans()):
            c2['X'] = c2['X'][:, 0].copy()
        return c2
    m = int(np.max(c.get('memory', 0)))
    if c['custom']:
        c2['weights'] = gen.stochastic_rows(draw, (n - m, k), 'seeded')
        if est == 'fembv-kmeans':
            c2['Theta'] = gen.draw_normal(draw, (k, d))
        else:
            c2['parameters'] = {'mu': gen.draw_normal(draw, (k, d))}
            if m > 0:
                c2['parameters']['A'] = 0.3 * gen.draw_normal(
                    draw, (k, m, d, d))
            if 'u' in c2:
                c2['parameters']['B0'] = gen.draw_normal(
                    draw, (k, d, c2['u'].shape[1]))
    return c2


@st.composite
def refit_cases(draw):
    c = draw(models.cases(inits=('custom', 'custom', 'random', None,
                                 'furthest_sum'), iterations=(1, 4)))
    if c['est'] in models.FEMBV and draw(st.integers(0, 3)):
        c['custom'] = True
        c = other_data(draw, c)
    return {'first': c, 'second': other_data(draw, c),
            'between': draw(st.booleans())}


def check_refit(case, ctx):
    """A refit with quite different data keeps nothing of the earlier one."""
    a, b = case['first'], case['second']
    est = a['est']
    model = models.make(a, a['seed'])
    x, kw = models.fit_arguments(a)
    model.fit(x, **kw)
    if case['between'] and est != 'kmeans-crom':
        x, kw = models.transform_arguments(dict(a, v=a.get('u')), 'X')
        model.transform(x, **kw)
    x, kw = models.fit_arguments(b)
    got = model.fit_transform(x, **kw)
    fresh = models.make(b, b['seed'])
    x, kw = models.fit_arguments(b)
    want = fresh.fit_transform(x, **kw)
    keep = repeatable(b)
    if keep:
        require(models.close(got, want, 1e-6), 'a refit of %s returns '
                'something different from a fresh object', est)
    for k in models.FITTED[est]:
        g, w = getattr(model, k), getattr(fresh, k)
        if k in keep:
            require(models.close(g, w, 1e-6),
                    '%s of %s after a refit is %r, for a fresh object %r', k,
                    est, g, w)
        else:
            require(np.shape(g) == np.shape(w), '%s of %s after a refit has '
                    'shape %r, for a fresh object %r', k, est, np.shape(g),
                    np.shape(w))
    ctx.label(est, 'comparable' if keep else 'shapes only')
    if 'u' in a or 'u' in b:
        ctx.label('exogenous data: %s, %s' % ('u' in a, 'u' in b))
    ctx.mark(bool(keep))


DEFAULTS = {
    'aa': lambda **kw: ArchetypalAnalysis(None, **kw),
    'kaa': lambda **kw: KernelAA(None, **kw),
    'gpnh': lambda **kw: GPNHConvexCoding(None, **kw),
    'crom': lambda **kw: GPNHConvexCodingCROM(None, lags=[1], **kw),
    'mtd': lambda **kw: MTDConvexCoding(None, lags=[1, 2], **kw),
    'fembv-kmeans': lambda **kw: FEMBVKMeans(None, **kw),
    'fembv-varx': lambda **kw: FEMBVVARX(None, memory=1, **kw),
    'pwvarx': lambda random_state, **kw: ClusterPWVARX(
        None, p=1, random_state=random_state,
        classifier=KNeighborsClassifier(1)),
    'kmeans-crom': lambda random_state, **kw: KMeansMarkovCROM(
        None, n_init=1, random_state=random_state)}


@st.composite
def default_cases(draw):
    est = draw(st.sampled_from(sorted(DEFAULTS)))
    shapes = []
    for _ in range(2):
        n = draw(st.integers(4, 6) if est in fact.AA_LIKE else
                 st.integers(14, 18))
        shapes.append((n, draw(st.integers(1, 3))))
    if draw(st.booleans()):
        shapes[1] = shapes[0]
    return {'est': est, 'X': gen.draw_normal(draw, shapes[0]),
            'Y': gen.draw_normal(draw, shapes[1]), 'seed': draw(gen.seeds())}


def check_default(case, ctx):
    """Refits of objects created without a number of components."""
    est = case['est']
    data = {name: case[name].dot(case[name].T) if est == 'kaa'
            else case[name] for name in 'XY'}

    def make():
        return DEFAULTS[est](random_state=case['seed'], max_iterations=2,
                             tolerance=0.0)

    def shapes(model):
        return {k: np.shape(getattr(model, k)) for k in models.FITTED[est]}

    model = make().fit(data['X'].copy())
    first = shapes(model)
    require(first == shapes(make().fit(data['X'].copy())),
            'two objects differ')
    fresh = make().fit(data['Y'].copy())
    axis = 0 if est in fact.AA_LIKE else 1
    same_count = est == 'kmeans-crom' or \
        data['X'].shape[axis] == data['Y'].shape[axis]
    ctx.label(est, 'same count' if same_count else 'other count')
    ctx.mark(True)
    if same_count:
        model.fit(data['Y'].copy())
        require(shapes(model) == shapes(fresh), 'the refitted shapes %r '
                'differ from %r', shapes(model), shapes(fresh))
        return
    try:
        model.fit(data['Y'].copy())
    except ValueError:
        # The number of the first fit may be too large for the new data.
        require(est in fact.AA_LIKE and model.n_components ==
                data['X'].shape[0] > data['Y'].shape[0], 'a refit raised')
        stale = True
    else:
        require(shapes(model) == shapes(fresh) or
                model.n_components == data['X'].shape[axis],
                'the refitted shapes %r differ from %r', shapes(model),
                shapes(fresh))
        stale = shapes(model) != shapes(fresh)
    if stale:
        ctx.known('default-n-components', 'created without a number of '
                  'components, %s keeps the number of its first fit when '
                  'refitted', est)


SUBS = [Sub('sequences', lambda tier: cases(), check, 2000, 40000),
        Sub('refit', lambda tier: refit_cases(), check_refit, 900, 20000),
        Sub('default', lambda tier: default_cases(), check_default, 250, 3000)]
