"""P32: settings changed on an estimator apply to its next fit."""
import numpy as np
from hypothesis import strategies as st

from checks import fact, models
from pbt import gen
from pbt.core import Sub, require

RULE = ('An estimator is fitted one or more times; before each of the later '
        'fits some of its settings (and its random state) are changed by '
        'assigning the attributes of the same names. Each of these fits must '
        'give the results of a new estimator created with the current '
        'settings. Non-trivial: a new value leads to other results than the '
        'one it replaces.')
ASSUMPTIONS = ['Only attributes named like the documented parameters are '
               'assigned. Results of equal computations agree to 1e-6 (see '
               'P15). The piecewise VARX model keeps its clusterer and '
               'classifier, and no settings of it are changed.']

ESTS = ('aa', 'kaa', 'gpnh', 'mtd', 'crom', 'fembv-kmeans', 'fembv-varx',
        'kmeans-crom')


def settings(est, custom, n):
    """Strategies for the settings of an estimator."""
    s = {'max_iterations': st.integers(1, 5),
         'tolerance': st.sampled_from([0.0, 1e-3, 1.0, 1e3])}
    if est == 'kmeans-crom':
        return {'n_clusters': st.integers(1, 4)}
    if est in models.FEMBV:
        s['max_tv_norm'] = st.sampled_from([None, 0.0, 0.3, 1.0, 4.0])
        if est == 'fembv-kmeans' and not custom:
            s['n_components'] = st.integers(1, min(3, n))
        return s
    if est in fact.AA_LIKE:
        s['delta'] = st.sampled_from([0.0, 0.05, 0.5])
    else:
        s['epsilon_states'] = st.sampled_from([0.0, 0.1, 3.0])
    if est == 'mtd':
        s['epsilon_weights'] = st.sampled_from([0.0, 0.1, 3.0])
    if not custom:
        s['n_components'] = st.integers(1, 3)
        s['init'] = st.sampled_from(['random', 'furthest_sum', None])
        if est in fact.MTD_LIKE:
            s['lags'] = st.sampled_from([[1], [2], [1, 2], [2, 1]])
    return s


@st.composite
def cases(draw):
    c = draw(models.cases(ests=ESTS, inits=('custom', 'random', None,
                                            'furthest_sum')))
    est = c['est']
    if est in models.FACT:
        custom = c['p']['init'] == 'custom'
        if not custom:
            # Given factors would determine the number of components.
            c['p']['fixed'] = []
        c['p']['options'] = {'require_monotonic_cost_decrease': False}
    else:
        custom = c.get('custom', False)
    possible = settings(est, custom, len(c['X']))
    changes = []
    for _ in range(draw(st.integers(1, 3))):
        names = draw(st.lists(st.sampled_from(sorted(possible)), min_size=1,
                              max_size=3, unique=True))
        changes.append([{name: draw(possible[name]) for name in names},
                        draw(gen.seeds())])
    c['changes'] = changes
    return c


KEYS = {'n_components': 'k', 'n_clusters': 'k'}


def changed(c, values):
    """The case of an estimator created with other settings."""
    c = dict(c)
    if 'p' in c:
        c['p'] = dict(c['p'])
    for name, value in values.items():
        key = KEYS.get(name, name)
        c[key] = value
        if 'p' in c:
            c['p'][key] = value
    return c


def fit(c, model):
    x, kw = models.fit_arguments(c)
    return model.fit_transform(x, **kw)


def check(case, ctx):
    est = case['est']
    current = dict(case)
    model = models.make(current, case['seed'])
    previous = fit(current, model)
    history = []
    for values, seed in case['changes']:
        current = changed(current, values)
        for name, value in values.items():
            setattr(model, name, np.array(value, dtype='i8')
                    if name == 'lags' else value)
        if est == 'kmeans-crom':
            fresh = models.make(current, case['seed'])
        else:
            model.random_state = np.random.RandomState(seed)
            fresh = models.make(current, np.random.RandomState(seed))
        history.append(values)
        got, want = fit(current, model), fit(current, fresh)
        require(models.close(got, want, 1e-6), 'a fit of %s after the '
                'changes %r returns something else than a new object', est,
                history)
        for k in models.FITTED[est]:
            g, w = getattr(model, k), getattr(fresh, k)
            require(models.close(g, w, 1e-6), '%s of %s after the changes %r '
                    'is %r, for a new object %r', k, est, history, g, w)
        require(getattr(model, 'n_iter_', 0) == getattr(fresh, 'n_iter_', 0),
                'n_iter_ of %s after the changes %r is different', est,
                history)
        if got.shape != previous.shape or not models.close(got, previous,
                                                            1e-6):
            ctx.mark()
        previous = got
        ctx.label(*('%s %s' % (est, name) for name in values))


SUBS = [Sub('settings', lambda tier: cases(), check, 1500, 30000)]
