"""P21: FEM-BV affiliations are distributions within the bound."""
from hypothesis import strategies as st

from checks import femb
from pbt.core import Sub

RULE = ('Both FEM-BV models are fitted, used to transform new data and fitted '
        'again with another bound, with the default and an exact solver; the affiliations are judged by '
        'their definition. Non-trivial: two or more components and a bound.')
ASSUMPTIONS = ['Accuracy 1e-5 (per sample for the total variation).']


def check(case, ctx):
    r = femb.run(case)
    femb.check_feasible(r.G, case['max_tv_norm'])
    bound = case['max_tv_norm']
    for step in case['steps']:
        if step == 'transform':
            G = femb.transform(case, r.model)
            femb.check_feasible(G, bound, 'the transformed affiliations')
        else:
            # Another bound for the same object.
            r.model.max_tv_norm = bound = case['then']
            G = r.model.fit_transform(case['X'].copy(),
                                      **femb.fit_kwargs(case))
            femb.check_feasible(G, bound, 'the affiliations after a '
                                'change of the bound')
            ctx.label('bound changed')
    femb.labels(case, ctx)
    if case['max_tv_norm'] is not None and case['k'] > 1:
        v = femb.variation(r.G).max()
        ctx.label('bound active' if v > case['max_tv_norm'] - 1e-3
                  else 'bound inactive')
        ctx.mark()


@st.composite
def with_change(draw, tier):
    c = draw(femb.cases(n=(2, 16), large=60 if tier == 'thorough' else 35,
                        solvers=('HIGHS', None)))
    c['then'] = femb.bounds(draw)
    c['steps'] = draw(st.sampled_from([
        ['transform'], ['transform', 'fit'], ['fit', 'transform'],
        ['fit', 'transform', 'fit', 'transform']]))
    return c


def cases(tier):
    return with_change(tier)


SUBS = [Sub('feasible', cases, check, 900, 20000)]
