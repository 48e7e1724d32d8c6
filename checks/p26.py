"""P26: piecewise VARX."""
import numpy as np
from hypothesis import strategies as st
from sklearn.cluster import KMeans
from sklearn.neighbors import KNeighborsClassifier
from sklearn.svm import SVC
from sklearn.tree import DecisionTreeClassifier

from pbt import gen
from pbt.core import Sub, get_array, require
from reor.pwvarx import ClusterPWVARX

RULE = ('Generated series with and without exogenous data; the regimes are '
        'recomputed with an independently trained clusterer and classifier '
        'on independently stacked lags, and for every regime the published '
        'matrices must attain the least-squares minimum, with matching '
        'residuals and covariance. Transforming training and other data is '
        'compared with the classifier. Non-trivial: two or more regimes '
        'predicted.')
ASSUMPTIONS = ['The clusterer separates at least two regimes in the training '
               'data. The covariance is compared when it has positive degrees '
               'of freedom.']


class FixedLabels:
    """A clusterer with given labels."""

    def __init__(self, labels):
        self.labels = labels

    def fit_predict(self, z):
        require(len(z) == len(self.labels),
                'the clusterer is given %d samples instead of %d', len(z),
                len(self.labels))
        return self.labels.copy()


@st.composite
def cases(draw, tier):
    p = draw(gen.sizes(0, 3, 7))
    s = draw(gen.sizes(0 if p else 1, 3, 7))
    k = draw(gen.sizes(2, 3, 6))
    shape = draw(st.sampled_from(['vector', 'column', 'matrix', 'matrix']))
    d = 1 if shape != 'matrix' else draw(gen.sizes(1, 3, 6))
    m = max(p, s)
    n = m + draw(gen.sizes(12, 40, 120 if tier == 'thorough' else 60,
                           huge=400))
    y = gen.draw_normal(draw, (n, d))
    kind = draw(st.sampled_from(['normal', 'switching', 'int']))
    if kind == 'switching':
        for t in range(1, n):
            y[t] = np.where(y[t - 1] > 0, -0.9, 0.5) * y[t - 1] + \
                0.3 * y[t] + (1.0 if y[t - 1, 0] > 0 else -0.5)
    elif kind == 'int':
        y = np.round(3 * y).astype('i8')
    unit = 1.0
    if kind != 'int':
        unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-8, 1e-4, 1e4, 1e7]))
        y = unit * y
    c = {'unit': unit, 'y': y[:, 0].copy() if shape == 'vector' else y, 'p': p, 's': s,
         'k': k, 'shape': shape, 'kind': kind, 'seed': draw(gen.seeds()),
         'trend': draw(st.booleans()), 'u': None,
         'method': draw(st.sampled_from(['fit', 'fit_transform'])),
         'default_k': draw(st.integers(0, 3)) == 0 and d >= 2}
    n2 = m + draw(st.integers(1, 12))
    c['y2'] = unit * gen.draw_normal(draw, (n2, d))
    if shape == 'vector':
        c['y2'] = c['y2'][:, 0].copy()
    if s > 0 and (p == 0 or draw(st.booleans())):
        e = draw(gen.sizes(1, 2, 5))
        c['u'] = unit * gen.draw_normal(draw, (n, e))
        c['u2'] = unit * gen.draw_normal(draw, (n2, e))
        if e == 1 and draw(st.booleans()):
            c['u'], c['u2'] = c['u'][:, 0].copy(), c['u2'][:, 0].copy()
    c['clusterer'] = draw(st.sampled_from(['default', 'default', 'kmeans',
                                           'fixed']))
    if c['clusterer'] == 'fixed':
        kk = d if c['default_k'] else k
        labels = gen.stochastic_rows(draw, (n - m, kk), 'onehot').argmax(1)
        labels[:2] = [0, 1]
        c['labels'] = labels
    c['classifier'] = draw(st.sampled_from(['default', 'knn', 'tree']))
    return c


def columns(a):
    return a[:, None] if a.ndim == 1 else a


def stack(y, u, p, s):
    m = max(p, s)
    rows = []
    for t in range(m, len(y)):
        row = [y[t - l] for l in range(1, p + 1)]
        if u is not None:
            row += [u[t - l] for l in range(1, s + 1)]
        rows.append(np.concatenate(row))
    return np.array(rows)


def make_clusterer(c, k):
    if c['clusterer'] == 'fixed':
        return FixedLabels(c['labels'])
    if c['clusterer'] == 'kmeans':
        return KMeans(k, n_init=2, random_state=c['seed'] // 2)
    return KMeans(k, random_state=c['seed'])


def make_classifier(c):
    return {'default': SVC, 'knn': lambda: KNeighborsClassifier(1),
            'tree': lambda: DecisionTreeClassifier(max_depth=3,
                                                   random_state=0)
            }[c['classifier']]()


def check(case, ctx):
    y, p, s = columns(case['y']).astype('f8'), case['p'], case['s']
    u = None if case['u'] is None else columns(case['u'])
    n, d = y.shape
    e = 0 if u is None else u.shape[1]
    m = max(p, s)
    k = d if case['default_k'] else case['k']
    X, Y = stack(y, u, p, s), y[m:]
    clusterer, classifier = make_clusterer(case, k), make_classifier(case)
    clusters = clusterer.fit_predict(np.hstack([X, Y]))
    if len(set(clusters.tolist())) < 2:
        return
    classifier.fit(X, clusters)
    expected = classifier.predict(X)

    model = ClusterPWVARX(
        None if case['default_k'] else k, p=p, s=s,
        include_trend=case['trend'], random_state=case['seed'],
        clusterer=None if case['clusterer'] == 'default'
        else make_clusterer(case, k),
        classifier=None if case['classifier'] == 'default'
        else make_classifier(case))
    kw = {} if u is None else {'exog': case['u'].copy()}
    if case['method'] == 'fit':
        require(model.fit(case['y'].copy(), **kw) is model,
                'fit does not return the model')
        labels = model.transform(case['y'].copy(), **kw)
    else:
        labels = model.fit_transform(case['y'].copy(), **kw)
        again = model.transform(case['y'].copy(), **kw)
        require(np.array_equal(labels, again),
                'transforming the training data gives other labels')
    labels = get_array(labels, (n - m,), 'the labels').astype(int)
    # The order of the stacked columns may change the rounding.
    require(np.mean(labels != expected) <= 0.02 or
            case['clusterer'] == 'fixed' and case['classifier'] == 'tree',
            'the labels are %r instead of the predicted regimes %r', labels,
            expected)

    mu = get_array(model.mu, (k, d), 'mu') if case['trend'] else None
    A = get_array(model.A, (k, p, d, d), 'A') if p else None
    B = get_array(model.B, (k, s, d, e), 'B') if e else None
    R = get_array(model.residuals, (n - m, d), 'residuals')
    S = get_array(model.Sigma_u, (k, d, d), 'Sigma_u', finite=False)
    require(case['trend'] or model.mu is None, 'mu is %r without trend',
            model.mu)
    for j in range(k):
        rows = np.flatnonzero(labels == j)
        if len(rows) == 0:
            continue
        e_j = []
        for r in rows:
            t = r + m
            x = mu[j].copy() if mu is not None else np.zeros(d)
            for l in range(1, p + 1):
                x = x + A[j, l - 1].dot(y[t - l])
            for l in range(1, s + 1 if e else 1):
                x = x + B[j, l - 1].dot(u[t - l])
            e_j.append(y[t] - x)
        e_j = np.array(e_j)
        unit = case['unit']
        size = unit + float(np.abs(y).max()) * (1 + max(
            [float(np.abs(a[j]).max()) for a in (A, B)
             if a is not None] + [0]))
        if mu is not None:
            size += float(np.abs(mu[j]).max())
        require(np.abs(R[rows] - e_j).max() <= 1e-9 * size,
                'the residuals of regime %d are not observation minus '
                'prediction', j)
        Z = X[rows]
        if case['trend']:
            Z = np.hstack([np.ones((len(rows), 1)), Z])
        best = np.linalg.lstsq(Z, Y[rows], rcond=None)[0]
        target = float(((Y[rows] - Z.dot(best)) ** 2).sum())
        value = float((e_j ** 2).sum())
        require(value <= target + 1e-9 * (unit ** 2 + float((Y * Y).sum())),
                'the squared residual of regime %d is %r, the minimum %r', j,
                value, target)
        df = len(rows) - p * d - (1 if case['trend'] else 0) - e * s
        if df > 0:
            cov = sum(np.outer(a, a) for a in e_j) / df
            require(np.abs(S[j] - cov).max() <=
                    1e-9 * (size ** 2 + np.abs(cov).max()),
                    'Sigma_u of regime %d is %r instead of %r', j, S[j], cov)

    y2 = columns(case['y2'])
    kw2 = {} if u is None else {'exog': case['u2'].copy()}
    u2 = None if u is None else columns(case['u2'])
    got = get_array(model.transform(case['y2'].copy(), **kw2),
                    (len(y2) - m,), 'the transformed labels')
    # The last sample is no lagged value of any other.
    changed = case['y2'].copy()
    changed[-1] += 100.0 * case['unit']
    if u2 is not None:
        kw2['exog'][-1] -= 100.0 * case['unit']
    require(np.array_equal(got, model.transform(changed, **kw2)),
            'a label depends on the sample itself')
    want = classifier.predict(stack(y2, u2, p, s))
    if case['classifier'] != 'tree':
        require(np.mean(got != want) <= 0.1,
                'other data are labelled %r instead of %r', got, want)
    ctx.label(case['shape'], 'p=%d' % p, 's=%d' % s, 'exog=%d' % e,
              case['clusterer'], case['classifier'], case['kind'],
              'unit=%g' % case['unit'],
              'regimes=%d' % len(set(labels.tolist())))
    ctx.mark(len(set(labels.tolist())) > 1)


SUBS = [Sub('piecewise', lambda tier: cases(tier), check, 900, 18000)]
