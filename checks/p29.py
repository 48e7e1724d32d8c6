"""P29: omitted arguments have their documented defaults."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from checks import femb, models
from pbt import gen
from pbt.core import Sub, require
from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
from reor.crom import KMeansMarkovCROM, kmeans_markov_crom
from reor.fembv_kmeans import FEMBVKMeans
from reor.fembv_varx import FEMBVVARX
from reor.gpnh_convex_coding import GPNHConvexCoding
from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
from reor.mtd_convex_coding import MTDConvexCoding
from reor.pwvarx import ClusterPWVARX

RULE = ('Two objects of a class are used alike on generated data: in one, a '
        'generated set of arguments of the constructor and of the methods is '
        'left out, in the other they are given their documented defaults '
        '(also by position). Results, iteration counts and what is printed '
        'must agree, with a seeded global generator also where the random '
        'state is left out. Non-trivial: giving one of the omitted arguments '
        'another value changes the results.')
ASSUMPTIONS = ['Fits that exhaust the default iteration limit are compared by '
               'cost and iteration count only.']


def euclidean(X):
    return X.dot(X.T)


# Class, positional order of documented arguments, documented defaults,
# other values.
ITERATION = {'tolerance': (1e-6, (1e-2, 1e-4, 0.0)),
             'max_iterations': (1000, (1, 3, 20)),
             'verbose': (0, (1,))}
AA = dict(ITERATION, delta=(0, (0.1, 0.5)), init=(None, ('random',)))
GPNH = dict(ITERATION, epsilon_states=(0, (0.3, 2.0)),
            init=(None, ('furthest_sum',)))
LAGS = {'lags': (None, ([2], [1, 2]))}
FEMBV = {'max_tv_norm': (None, (0.0, 1.0)), 'init': (None, ('random',)),
         'max_iterations': (500, (1, 2, 3)), 'tolerance': (1e-4, (1e-1, 0.0)),
         'verbose': (0, (1,))}
CLASSES = {
    'kaa': (KernelAA, (), AA),
    'aa': (ArchetypalAnalysis, (),
           dict(AA, kernel_func=(None, (lambda X: (1 + X.dot(X.T)) ** 2,)))),
    'gpnh': (GPNHConvexCoding,
             ('epsilon_states', 'init', 'tolerance', 'max_iterations',
              'verbose'), GPNH),
    'crom': (GPNHConvexCodingCROM, ('lags',), dict(GPNH, **LAGS)),
    'mtd': (MTDConvexCoding,
            ('lags', 'epsilon_states', 'epsilon_weights', 'init', 'tolerance',
             'max_iterations', 'verbose'),
            dict(GPNH, epsilon_weights=(0, (0.5, 3.0)), **LAGS)),
    'fembv-kmeans': (FEMBVKMeans,
                     ('max_tv_norm', 'init', 'max_iterations', 'tolerance',
                      'verbose'), FEMBV),
    'fembv-varx': (FEMBVVARX,
                   ('max_tv_norm', 'memory', 'init', 'max_iterations',
                    'tolerance', 'verbose'),
                   dict(FEMBV, memory=(None, (1, 2)))),
    'kmeans-crom': (KMeansMarkovCROM, (), {'n_clusters': (None, (3,))}),
    'pwvarx': (ClusterPWVARX, ('p', 's', 'include_trend'),
               {'s': (0, (1, 2)), 'include_trend': (True, (False,)),
                'clusterer': (None, ()), 'classifier': (None, ())}),
}
# What None stands for.
MEANING = {('kaa', 'init'): 'furthest_sum', ('aa', 'init'): 'furthest_sum',
           ('gpnh', 'init'): 'random', ('crom', 'init'): 'random',
           ('mtd', 'init'): 'random', ('fembv-kmeans', 'init'): 'random',
           ('fembv-varx', 'init'): 'random', ('fembv-varx', 'memory'): 0,
           ('aa', 'kernel_func'): euclidean, ('crom', 'lags'): [1],
           ('mtd', 'lags'): [1], ('kmeans-crom', 'n_clusters'): 2}


@st.composite
def cases(draw):
    est = draw(st.sampled_from(sorted(CLASSES)))
    table = CLASSES[est][2]
    k, d = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    n = draw(st.integers(6, 12))
    if est == 'pwvarx':
        n, k = n + 14, max(k, 2)
    c = {'est': est, 'k': k, 'seed': draw(gen.seeds()),
         'omit': [], 'given': {}, 'meaning': [], 'alternative': None,
         'positional': draw(st.booleans()),
         'exhaust': False}
    for name in sorted(table):
        if draw(st.integers(0, 2)) or not table[name][1]:
            c['omit'].append(name)
            if draw(st.booleans()):
                c['meaning'].append(name)
        else:
            c['given'][name] = draw(st.integers(0, len(table[name][1]) - 1))
    if 'max_iterations' in c['omit'] and draw(st.integers(0, 9)) == 9:
        # Run into the default limit.
        c['exhaust'] = True
        c['given']['tolerance'] = table['tolerance'][1].index(0.0)
        c['omit'] = [v for v in c['omit'] if v != 'tolerance']
        c['k'] = k = 1 if est in models.FEMBV else k
    elif 'max_iterations' in c['omit'] and 'tolerance' not in c['omit'] and \
            table['tolerance'][1][c['given']['tolerance']] == 0:
        c['given']['tolerance'] = 0
    options = [v for v in c['omit'] if table[v][1]]
    if options:
        name = draw(st.sampled_from(options))
        c['alternative'] = [name,
                            draw(st.integers(0, len(table[name][1]) - 1))]
    c['random_state'] = draw(st.sampled_from(['seed', 'seed', 'omitted']))
    c['X'] = gen.draw_normal(draw, (n, d)) + draw(st.sampled_from([0, 1.5]))
    # The tolerances are absolute.
    c['X'] *= draw(st.sampled_from([1.0, 1.0, 0.1, 0.03, 0.01, 10.0]))
    c['Y'] = gen.draw_normal(draw, (n, d))
    c['updates'] = draw(st.booleans())
    c['horizon'] = draw(st.booleans())
    c['sample_weight'] = draw(st.booleans())
    if est in ('fembv-varx', 'pwvarx') and draw(st.booleans()):
        c['u'], c['v'] = (gen.draw_normal(draw, (n, 2)) for _ in range(2))
    return c


def values(c, how):
    """Arguments of one variant: 'omitted', 'explicit' or 'other'."""
    table = CLASSES[c['est']][2]
    kw = {name: table[name][1][i] for name, i in c['given'].items()}
    if how == 'explicit':
        for name in c['omit']:
            kw[name] = table[name][0]
            if name in c['meaning'] and (c['est'], name) in MEANING:
                kw[name] = MEANING[c['est'], name]
    elif how == 'other':
        name, i = c['alternative']
        kw[name] = table[name][1][i]
    return kw


def results(c, how):
    est = c['est']
    cls, order, _ = CLASSES[est]
    kw = values(c, how)
    args = [] if est == 'kmeans-crom' else [c['k']]
    if est == 'pwvarx':
        args.append(1)
        order = order[1:]
    if how == 'explicit' and c['positional']:
        while order and order[0] in kw:
            args.append(kw.pop(order[0]))
            order = order[1:]
    if est == 'kmeans-crom':
        kw['n_init'] = 2
    elif est in models.FEMBV and c['k'] > 1:
        kw['weights_solver_kwargs'] = {'solver': 'HIGHS'}
    if c['random_state'] == 'seed':
        kw['random_state'] = c['seed']
    elif how == 'explicit':
        kw['random_state'] = np.random.RandomState(c['seed'])
    X, Y = c['X'].copy(), c['Y'].copy()
    if est == 'kaa':
        X, Y = X.dot(X.T), Y.dot(Y.T)
    fit, other, predict = {}, {}, {}
    if 'u' in c:
        name = 'external_factors' if est == 'fembv-varx' else 'exog'
        fit[name], other[name] = c['u'].copy(), c['v'].copy()
    elif how == 'explicit' and est == 'pwvarx':
        fit['exog'] = other['exog'] = None
    if how == 'explicit' and c['updates']:
        if est in models.FACT:
            fit.update(dictionary=None, weights=None, update_dictionary=True,
                       update_weights=True)
            if est == 'mtd':
                fit.update(update_parameters=True, order_weights=None,
                           transition_matrices=None)
        elif est in models.FEMBV:
            fit.update(parameters=None, weights=None, update_parameters=True,
                       update_weights=True)
    if how == 'explicit' and est == 'kmeans-crom':
        fit['sample_weight'] = np.ones(len(X)) if c['sample_weight'] else None
    if how == 'explicit' and c['horizon']:
        predict['horizon'] = 0
    np.random.seed(c['seed'])
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        model = cls(*args, **kw)
        out = {'fit': np.array(model.fit_transform(X, **fit), dtype='f8')}
        for name in models.FITTED[est]:
            out[name] = models.snapshot(getattr(model, name))
        if hasattr(model, 'n_iter_'):
            out['n_iter_'] = int(model.n_iter_)
        if not c['exhaust'] and est != 'kaa':
            out['transform'] = np.array(model.transform(Y, **other))
        if est in ('mtd', 'crom', 'kmeans-crom') and not c['exhaust']:
            out['predict'] = model.predict(Y, **predict)
    if c['exhaust']:
        out = {name: out[name] for name in ('cost_', 'n_iter_')}
    # Times differ.
    out['lines'] = len(printed.getvalue().splitlines())
    return out


def check(case, ctx):
    try:
        given = results(case, 'explicit')
    except ValueError as e:
        # Classification needs two clusters.
        if case['est'] == 'pwvarx' and 'class' in str(e):
            ctx.label('one cluster')
            return
        raise
    omitted = results(case, 'omitted')
    for name, value in given.items():
        require(models.close(omitted[name], value, 1e-6),
                '%s with the documented defaults of %s gives other results '
                'than without (%s)', case['est'], ', '.join(case['omit']),
                name)
    ctx.label(case['est'], *('omitted: ' + name for name in case['omit']))
    if case['exhaust']:
        ctx.label('limit exhausted')
    if case['alternative'] is None or case['exhaust']:
        return
    try:
        other = results(case, 'other')
    except ValueError:
        return
    if not all(models.close(other[name], value, 1e-6)
               for name, value in given.items()):
        ctx.label('matters: ' + case['alternative'][0])
        ctx.mark()


def _functions(draw):
    n, d = draw(st.integers(6, 15)), draw(st.integers(1, 3))
    return {'X': gen.draw_normal(draw, (n, d)), 'seed': draw(gen.seeds()),
            'k': draw(st.sampled_from([None, 2]))}


functions = st.composite(_functions)


def check_functions(case, ctx):
    """The function behind the k-means CROM."""
    kw = {'random_state': case['seed'], 'n_init': 2}
    if case['k'] is not None:
        kw['n_clusters'] = case['k']
    km, T = kmeans_markov_crom(case['X'].copy(), **kw)
    kw.update(n_clusters=2, sample_weight=np.ones(len(case['X'])))
    km2, T2 = kmeans_markov_crom(case['X'].copy(), **kw)
    require(models.close(T, T2, 1e-9) and
            models.close(km.cluster_centers_, km2.cluster_centers_, 1e-9) and
            models.same(km.labels_, km2.labels_),
            'the k-means CROM with two clusters and equal weights differs '
            'from the default')
    ctx.mark()


SUBS = [Sub('arguments', lambda tier: cases(), check, 1500, 30000),
        Sub('functions', lambda tier: functions(), check_functions, 100,
            1000)]
_ = femb
