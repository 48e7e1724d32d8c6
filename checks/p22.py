"""P22: FEM-BV affiliations are optimal for the distances."""
import numpy as np
from hypothesis import strategies as st

from checks import femb
from pbt import gen
from pbt.core import Sub, get_array, get_number, require
from reor.fembv import FEMBV

RULE = ('Distances are generated directly (through a FEM-BV subclass), as '
        'squared distances to given centroids, and as residuals of given VARX '
        'coefficients; the affiliations chosen for them must be admissible '
        'and attain the optimum of an independently formulated linear '
        'programme, and the cost must be their weighted total. Non-trivial: '
        'two or more components; labels tell whether the bound matters.')
ASSUMPTIONS = ['Accuracy 1e-5 relative to the size of the distances.']


class Prescribed(FEMBV):
    """FEM-BV model with given distances."""

    def __init__(self, distances, layout, **kwargs):
        super().__init__(distances.shape[1], **kwargs)
        self.given = distances
        self.layout = layout

    def _evaluate_distance_matrix(self):
        self.distance_matrix = gen.layout(self.given.copy(), self.layout)

    def _initialize_components(self, data, parameters=None, init=None,
                               **kwargs):
        self._evaluate_distance_matrix()

    def _update_parameters(self):
        pass


def judge(D, G, bound, ctx, unit):
    femb.check_feasible(G, bound)
    best = femb.check_optimal(G, D, bound, unit=unit)
    D = D / (D.max() or 1.0)
    best = femb.optimum(D, bound)
    if D.shape[1] > 1:
        ctx.mark()
        free = D.min(axis=1).sum()
        if bound is not None:
            ctx.label('bound matters' if best > free + 1e-6
                      else 'bound does not matter')
        else:
            # Samples with a clearly closest component belong to it.
            order = np.sort(D, axis=1)
            clear = order[:, 1] - order[:, 0] > 0.05 * (0.2 + order[:, 1])
            own = G[np.arange(len(D)), D.argmin(axis=1)]
            require(bool((own[clear] >= 1 - 1e-3 * femb.loose()).all()),
                    'a sample is not assigned to its closest component')


@st.composite
def given_cases(draw, tier):
    k = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 5, 5, 8]))
    n = draw(gen.sizes(2, 14, 60 if tier == 'thorough' else 35,
                       huge=150))
    kind = draw(st.sampled_from(['normal', 'normal', 'uniform', 'grid', 'spiky',
                                 'zero', 'blocks', 'blocks', 'blocks',
                                 'outlier', 'outlier']))
    if kind == 'uniform':
        D = np.abs(gen.draw_matrix(draw, (n, k)))
    elif kind == 'normal':
        D = gen.draw_normal(draw, (n, k)) ** 2
    elif kind == 'grid':
        D = gen.draw_grid(draw, (n, k)) + 2
    elif kind == 'spiky':
        D = gen.draw_normal(draw, (n, k)) ** 4
    elif kind == 'outlier':
        D = gen.draw_normal(draw, (n, k)) ** 2
        factor = 10.0 ** draw(st.integers(2, 6))
        if draw(st.booleans()):
            D[:, draw(st.integers(0, k - 1))] *= factor
        else:
            F = np.ones((n, k))
            for _ in range(draw(st.integers(1, 3))):
                F[draw(st.integers(0, n - 1)),
                  draw(st.integers(0, k - 1))] = factor
            D = F * D
    elif kind == 'zero':
        D = np.zeros((n, k))
    else:
        R = femb.regimes(draw, n, 1, k)[:, 0]
        D = (R[:, None] - np.linspace(-2, 2, k)[None]) ** 2
    scale = draw(st.sampled_from([1.0, 1.0, 1e-20, 1e-10, 1e-7, 1e-4, 1e4,
                                  1e7, 1e12, 1e20]))
    return {'D': scale * D, 'scale': scale, 'kind': kind, 'max_tv_norm': femb.bounds(draw),
            'solver': draw(st.sampled_from(['HIGHS', None])),
            'layout': draw(st.sampled_from(gen.LAYOUTS)),
            'seed': draw(gen.seeds()), 'iterations': draw(st.integers(1, 2))}


def check_given(case, ctx):
    D = case['D']
    n, k = D.shape
    kw = {'max_tv_norm': case['max_tv_norm'], 'random_state': case['seed'],
          'max_iterations': case['iterations'], 'tolerance': 0.0}
    if case['solver'] is not None:
        kw['weights_solver_kwargs'] = {'solver': case['solver']}
    model = Prescribed(D, case['layout'], **kw)
    G = get_array(model.fit_transform(np.zeros((n, 1))), (n, k),
                  'the affiliations')
    judge(D, G, case['max_tv_norm'], ctx, 0.0)
    if case['kind'] == 'outlier' and k > 1:
        # Single large distances do not make the result less accurate.
        typical = float(np.median(np.sort(D, axis=1)[:, 1]))
        best = femb.optimum(D, case['max_tv_norm'])
        value = float((G * D).sum())
        require(value <= best + femb.loose() *
                (1e-4 * typical * (1 + n / 10) + 1e-5 * best),
                'besides outliers: the affiliations have the weighted '
                'distance %r, the smallest admissible one is %r', value, best)
    cost = get_number(model.cost_, 'cost_')
    require(abs(cost - float((G * D).sum())) <= 1e-9 * D.sum(),
            'cost_ is %r instead of %r', cost, float((G * D).sum()))
    ctx.label(case['kind'], 'k=%d' % k, 'scale=%g' % case['scale'], 'solver=%s' % case['solver'],
              'bound=%s' % case['max_tv_norm'])


def check_models(case, ctx):
    """Affiliations for given parameters, by fitting and transforming."""
    model = femb.build(case)
    G = model.fit_transform(case['X'].copy(), update_parameters=False,
                            **femb.fit_kwargs(case))
    r = femb.Result(case, model, G)
    for name, value in r.parameters(case).items():
        require(value is None or np.abs(value - case[name]).max() <= 1e-12 * max(
                    1.0, case['scale']),
                '%s is updated although it was to be kept', name)
    unit = femb.unit(case)
    D = r.distances(case, case['X'].astype('f8'), case.get('u'))
    judge(D, r.G, case['max_tv_norm'], ctx, unit)
    require(abs(r.cost - float((r.G * D).sum())) <= 1e-8 * (unit + D.sum()),
            'cost_ is %r instead of %r', r.cost, float((r.G * D).sum()))
    H = femb.transform(case, model)
    judge(r.distances(case, case['Y'], case.get('v')), H,
          case['max_tv_norm'], ctx, unit)
    femb.labels(case, ctx)


SUBS = [Sub('distances', lambda tier: given_cases(tier), check_given, 900,
            20000),
        Sub('models', lambda tier: femb.cases(
            custom=True, iterations=(1, 1),
            large=50 if tier == 'thorough' else 30), check_models, 600,
            12000)]
