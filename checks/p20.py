"""P20: k-means CROM."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, get_array, require
from reor.crom import KMeansMarkovCROM, kmeans_markov_crom

RULE = ('Data are generated freely or from a generated label sequence (with '
        'states visited only at the end, or only once); the transition matrix '
        'is compared with counts of the labels, predictions with the nearest '
        'centre propagated step by step, transformations with Euclidean '
        'distances, and centres with the weighted means of their samples. '
        'Non-trivial: two or more clusters are visited.')
ASSUMPTIONS = ['Centres are the weighted means of their samples when k-means '
               'stops before its iteration limit with zero tolerance.',
               'With fewer distinct samples than clusters, scikit-learn may '
               'leave labels and centres inconsistent; only the counts and '
               'predictions are checked then.',
               'The column of a cluster without observed transitions may be '
               'any distribution.']


@st.composite
def cases(draw, tier):
    k = draw(gen.sizes(1, 5, 12))
    d = draw(gen.sizes(1, 3, 8))
    n = draw(gen.sizes(k, max(k, 14), 60 if tier == 'thorough' else 30,
                       huge=300))
    if draw(st.integers(0, 39)) == 39:
        n = draw(st.integers(130, 3000) if draw(st.integers(0, 3))
                 else st.integers(33000, 70000))
        k = min(k, 3)
    kind = draw(st.sampled_from(['sequence', 'sequence', 'free']))
    if kind == 'sequence':
        centres = 10.0 * np.arange(k)[:, None] + np.zeros((k, d))
        if n > 60:
            rng = np.random.RandomState(draw(gen.seeds()))
            p = rng.dirichlet(np.full(k, draw(st.sampled_from([0.1, 1.0]))))
            states = rng.choice(k, size=n, p=p)
        else:
            states = np.array(draw(st.lists(st.integers(0, k - 1),
                                            min_size=n, max_size=n)))
        if draw(st.booleans()):
            states[states == states[-1]] = (states[-1] + 1) % k
            states[-1] = (states[-1] - 1) % k
        X = centres[states] + 0.1 * gen.draw_normal(draw, (n, d))
    else:
        X, _ = gen.draw_data(draw, n, d, kinds=('normal', 'grid', 'dup',
                                                'outlier'))
    unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-8, 1e-4, 1e4, 1e7]))
    X = unit * X
    c = {'k': k, 'unit': unit, 'X': X, 'kind': kind, 'seed': draw(gen.seeds()),
         'n_init': draw(st.integers(1, 3)), 'horizon': draw(gen.sizes(0, 6, 40, huge=400)),
         'Y': unit * 3 * k * gen.draw_normal(draw, (draw(gen.sizes(1, 8, 40)), d)),
         'call': draw(st.sampled_from(['fit', 'fit_predict', 'fit_transform',
                                       'function'])),
         'default': draw(st.integers(0, 5)) == 0 and n >= 2,
         'weighted': draw(st.booleans()), 'refit': draw(st.booleans())}
    if kind == 'sequence' and draw(st.booleans()):
        c['centres'] = unit * centres
    if c['weighted']:
        c['w'] = gen.stochastic_rows(draw, (1, n), 'seeded')[0] * n + 0.01
    return c


def check_matrix(T, labels, k):
    T = get_array(T, (k, k), 'the transition matrix')
    for j in range(k):
        steps = [(a, b) for a, b in zip(labels[:-1], labels[1:]) if a == j]
        if steps:
            for i in range(k):
                f = sum(b == i for _, b in steps) / len(steps)
                require(abs(T[i, j] - f) <= 1e-12,
                        'the probability of the transition from %d to %d is '
                        '%r, its frequency %r', j, i, T[i, j], f)
        require(T[:, j].min() >= -1e-12 and abs(T[:, j].sum() - 1) <= 1e-12,
                'column %d of the transition matrix is %r', j, T[:, j])
    return T


def distances(X, C):
    return np.sqrt(((X[:, None] - C[None]) ** 2).sum(axis=2))


def check_nearest(labels, X, C, what, unit):
    D = distances(X, C)
    own = D[np.arange(len(labels)), labels]
    require(bool((own <= D.min(axis=1) + 1e-6 * (unit + D.max())).all()),
            '%s is not the nearest centre', what)


def check(case, ctx):
    X, Y, k = case['X'], case['Y'], case['k']
    n, d = X.shape
    unit = case['unit']
    kw = {'random_state': case['seed'], 'n_init': case['n_init'], 'tol': 0.0}
    if case['default']:
        k = 2
    elif 'centres' in case:
        kw.update(init=case['centres'].copy(), n_init=1)
    if not case['default']:
        kw['n_clusters'] = k
    sw = {'sample_weight': case['w'].copy()} if case['weighted'] else {}
    if case['call'] == 'function':
        kmeans, T = kmeans_markov_crom(X.copy(), **sw, **kw)
        labels = get_array(kmeans.labels_, (n,), 'labels_').astype(int)
        check_matrix(T, labels, k)
    model = KMeansMarkovCROM(**kw)
    if case['refit']:
        model.fit(X[::-1].copy())
    call = 'fit' if case['call'] == 'function' else case['call']
    result = getattr(model, call)(X.copy(), **sw)
    C = get_array(model.cluster_centers_, (k, d), 'cluster_centers_')
    labels = get_array(model.labels_, (n,), 'labels_').astype(int)
    require(labels.min() >= 0 and labels.max() < k, 'labels_ are %r', labels)
    T = check_matrix(model.transition_matrix_, labels, k)
    regular = len(np.unique(X, axis=0)) >= k
    if regular:
        check_nearest(labels, X, C, 'a label', unit)
    if call == 'fit':
        require(result is model, 'fit returns %r', result)
    elif call == 'fit_predict':
        r = get_array(result, (n,), 'the labels')
        require(bool((r == labels).all()),
                'fit_predict returns other labels than labels_')
    else:
        r = get_array(result, (n, k), 'the distances')
        require(np.abs(r - distances(X, C)).max() <= 1e-6 * (unit + r.max()),
                'fit_transform does not return the distances to the centres')
    w = case['w'] if case['weighted'] else np.ones(n)
    D = distances(X, C)
    scale = unit ** 2 + float((X * X).max()) + float((C * C).max())
    length = unit + float(np.abs(X).max()) + float(np.abs(C).max())
    if model.n_iter_ < 300 and regular:
        for j in set(labels.tolist()):
            m = labels == j
            mean = (w[m, None] * X[m]).sum(axis=0) / w[m].sum()
            require(np.abs(mean - C[j]).max() <= 1e-6 * length,
                    'centre %d is not the mean of its samples', j)
    inertia = float((w * D[np.arange(n), labels] ** 2).sum())
    require(abs(inertia - model.inertia_) <= 1e-8 * scale * (1 + w.sum()),
            'inertia_ is %r instead of %r', model.inertia_, inertia)

    h = case['horizon']
    for Z in (Y, X):
        m = Z.shape[0]
        P0 = get_array(model.predict(Z.copy()), (m, k), 'the prediction')
        require(bool(np.isin(P0, [0, 1]).all() and
                     (P0.sum(axis=1) == 1).all()),
                'the prediction for horizon zero is not an indicator')
        check_nearest(P0.argmax(axis=1), Z, C, 'a predicted label',
                      unit)
        P = get_array(model.predict(Z.copy(), horizon=h,
                                    **({} if Z is Y else sw)), (m, k),
                      'the prediction')
        propagated = {}
        for start in range(k):
            p = np.eye(k)[start]
            for _ in range(h):
                p = np.array([sum(T[a, b] * p[b] for b in range(k))
                              for a in range(k)])
            propagated[start] = p
        expected = np.array([propagated[int(a)] for a in P0.argmax(axis=1)])
        require(np.abs(P - expected).max() <= 1e-10,
                'the prediction over %d steps is not the propagated '
                'indicator', h)
        require(np.abs(model.transform(Z.copy()) -
                       distances(Z, C)).max() <=
                1e-6 * (length + float(np.abs(Z).max())),
                'transform does not return the distances to the centres')
    last = labels[-1] not in labels[:-1]
    ctx.label(call, 'long' if n > 128 else 'short', 'h=%s' % (h if h < 3 else '3+'), case['kind'],
              'weighted' if case['weighted'] else 'unweighted',
              'last state is new' if last else 'last state seen before',
              'default' if case['default'] else 'k=%d' % k,
              'unit=%g' % unit)
    ctx.mark(len(set(labels.tolist())) > 1)


SUBS = [Sub('crom', lambda tier: cases(tier), check, 1500, 30000)]
