"""P07: monotone costs, no aborted fits."""
import numpy as np
from hypothesis import strategies as st

from checks import fact
from pbt.core import Sub, require

RULE = ('The same fit is run with budgets 1, 2, ..., K and zero tolerance; '
        'the costs must not increase, starting from the objective at the '
        'initial guess when it is custom. Non-trivial: the cost strictly '
        'decreases at least once.')
ASSUMPTIONS = ['Increases below 1e-9 of the magnitude of the terms entering '
               'the cost count as rounding. Default line search options.']


@st.composite
def cases(draw, large=False):
    p = draw(fact.problems(scale=True, iterations=(3, 9), large_n=30,
                           big=1 if large else 9,
                           huge='always' if large else True))
    return {'p': p}


def check(case, ctx):
    p = case['p']
    last = fact.initial_cost(p)
    costs = [] if last is None else [last]
    decreased = False
    scale = fact.cost_scale(p)
    if 'dictionary' in p and p['method'] not in fact.AA_LIKE:
        scale = max(scale, fact.cost_scale(
            p, np.ones((p['X'].shape[0], p['k'])) / p['k'], p['dictionary']))
    for budget in range(1, p['max_iterations'] + 1):
        f = fact.run(p, max_iterations=budget)
        sc = max(scale, fact.cost_scale(p, f.W, f.D))
        if costs:
            require(f.cost <= costs[-1] + 1e-9 * sc,
                    'cost increased from %r to %r with iteration %d',
                    costs[-1], f.cost, budget)
            decreased = decreased or f.cost < costs[-1] - 1e-9 * sc
        costs.append(f.cost)
    fact.labels(p, ctx)
    ctx.mark(decreased)


@st.composite
def long_cases(draw):
    """Longer fits of (nearly) degenerate data, where rounding dominates."""
    p = draw(fact.problems(
        scale=True, iterations=(40, 80), fixed=False,
        kinds=('dup', 'neardup', 'lowrank', 'convex', 'const', 'grid',
               'normal')))
    return {'p': p}


def check_long(case, ctx):
    p = case['p']
    a = fact.run(p, max_iterations=p['max_iterations'] // 4)
    b = fact.run(p)
    sc = max(fact.cost_scale(p, a.W, a.D), fact.cost_scale(p, b.W, b.D))
    require(b.cost <= a.cost + 1e-9 * sc,
            'cost increased from %r to %r with more iterations', a.cost, b.cost)
    ref = fact.initial_cost(p)
    if ref is not None:
        require(a.cost <= ref + 1e-9 * max(sc, ref),
                'final cost %r exceeds that of the start %r', a.cost, ref)
    fact.labels(p, ctx)
    ctx.mark(p['k'] > 1 and b.cost < a.cost)


@st.composite
def option_cases(draw):
    """Fits with other line search options, perhaps with a longer memory."""
    p = draw(fact.problems(scale=True, iterations=(2, 8), inits=('custom',),
                           huge=True))
    p['options'] = draw(fact.search_options(draw(st.sampled_from([1, 5]))))
    return {'p': p}


def check_options(case, ctx):
    p = case['p']
    ref = last = fact.initial_cost(p)
    scale = max(ref, fact.cost_scale(p))
    if p['method'] not in fact.AA_LIKE:
        scale = max(scale, fact.cost_scale(
            p, np.ones((p['X'].shape[0], p['k'])) / p['k'], p['dictionary']))
    monotone = 'line_search_memory' not in p['options']
    moved = False
    for budget in range(1, p['max_iterations'] + 1):
        f = fact.run(p, max_iterations=budget)
        sc = max(scale, fact.cost_scale(p, f.W, f.D))
        require(f.cost <= (last if monotone else ref) + 1e-9 * sc,
                'cost %r after %d iterations with options %r, %s %r', f.cost,
                budget, p['options'], 'previously' if monotone else 'initially',
                last if monotone else ref)
        moved = moved or abs(f.cost - last) > 1e-9 * sc
        last = f.cost
    fact.labels(p, ctx)
    ctx.label(*sorted(p['options']))
    ctx.mark(moved and bool(p['options']))


SUBS = [Sub('prefix', lambda tier: cases(), check, 2000, 60000),
        Sub('large', lambda tier: cases(True), check, 150, 4000),
        Sub('long', lambda tier: long_cases(), check_long, 800, 20000),
        Sub('options', lambda tier: option_cases(), check_options, 800, 20000)]
