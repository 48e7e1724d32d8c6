"""Comparing two runs that agree in exact arithmetic.

The iterations involve comparisons (line search, clamping), so rounding can in
rare cases be amplified.  A disagreement therefore only counts if it is not
explained by the sensitivity of the computation to rounding, measured by
perturbing the data by 1e-13 to 1e-12 relative to their size.
"""
import numpy as np

from checks import fact
from pbt.core import require

TOL = 1e-6


def size(a):
    return 1e-300 + float(np.abs(a).max()) if a.size else 1e-300


def results(f):
    out = {'weights': f.W, 'dictionary': f.D, 'cost': np.array([f.cost])}
    if hasattr(f, 'order_weights'):
        out['order weights'] = f.order_weights
        out['transition matrices'] = f.transitions
    return out


def deviation(a, b, scale):
    return {k: float(np.abs(a[k] - b[k]).max()) / scale.get(k, 1.0)
            for k in a}


def scales(p, f):
    s = {'weights': 1.0, 'order weights': 1.0, 'transition matrices': 1.0,
         'cost': 1e-9 + fact.cost_scale(p, f.W, f.D)}
    s['dictionary'] = 1.0 if p['method'] in fact.AA_LIKE else \
        max(size(f.D), size(p['X']))
    return s


def sensitivity(p, compute, base, scale, tries=8):
    """Largest change of the results under rounding-size perturbations."""
    worst = {k: 0.0 for k in base}
    for t in range(tries):
        rng = np.random.RandomState(1000 + t)
        eps = 1e-13 if t % 2 else 1e-12
        q = dict(p)
        for name in ('X', 'dictionary', 'weights', 'transition_matrices'):
            if name in q:
                noise = 1 + eps * rng.uniform(-1, 1, size=q[name].shape)
                q[name] = q[name] * noise
                q[name] = q[name] + eps * size(p[name]) * \
                    rng.uniform(-1, 1, size=q[name].shape)
        for k, v in deviation(results(compute(q)), base, scale).items():
            worst[k] = max(worst[k], v)
    return worst


def compare(p, f, other, ctx, what, amplification=1.0):
    """Require results dict `other` to agree with the fit `f` of `p`."""
    base = results(f)
    scale = scales(p, f)
    dev = deviation(other, base, scale)
    tol = TOL * amplification
    bad = [k for k in dev if not dev[k] <= tol]
    if bad:
        sens = sensitivity(p, fact.run, base, scale)
        if max(sens.values()) > 1e-9:
            ctx.label('sensitive to rounding')
            return False
        for k in bad:
            require(False, '%s changes the %s by %g (relative)', what, k,
                    dev[k])
    return True
