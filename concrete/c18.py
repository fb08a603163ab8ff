import math
import warnings
import numpy as np
from .base import *

RULE = ('2 to 25 equally spaced magnitude bins with observation periods of 1 to 500 years and 0 to 400 events each (at least '
        'two events in all), reference magnitudes zero, positive and negative, starting values of 0.5 to 4 and tolerances of '
        '1E-10 to 0.5; a case counts when the iteration of the definition ended within 60 steps and all four results agreed')


def gen(g):
    n = g.size(2, 25)
    m0, d = g.pick(0.05, 4.0, 3.25, 5.5, g.real(0, 6, 2)), g.pick(0.1, 0.2, 0.25, 0.5, 1.0)
    t = sorted(g.reals(n, 1, 500, g.pick(0, 1)))
    if g.chance(0.3):
        t = [t[0]] * n
    b = g.r.uniform(0.5, 1.6)
    a = g.pick(20, 100, 400)
    k = [float(int(a * 10 ** (-b * d * i) * g.r.uniform(0.5, 1.5))) for i in range(n)]
    if g.chance(0.3):
        k = [float(g.int(0, 6)) for _ in range(n)]
    return {'t': t, 'm': [m0 + d * i for i in range(n)], 'k': k, 'ref': g.pick(None, 0.0, 5.0, 4.0, 1.0, g.real(-2, 9, 2)),
            'beta': g.pick(None, 1.5, 2.0, g.r.uniform(0.5, 4)), 'tol': g.pick(None, 1e-5, 1e-10, 1e-3, 0.1, 0.5)}


def run(case):
    warnings.simplefilter('ignore')
    t, m, k = arr(case['t']), arr(case['m']), arr(case['k'])
    if k.sum() < 2:
        raise Skip('too few events')
    kw = {}
    if case['ref'] is not None:
        kw['mrate'] = case['ref']
    if case['beta'] is not None:
        kw['beta'] = case['beta']
    if case['tol'] is not None:
        kw['itstab'] = case['tol']
    beta, tol, ref = kw.get('beta', 1.5), kw.get('itstab', 1e-5), kw.get('mrate', 0.0)
    N, km = math.fsum(k), math.fsum(k * m)
    for it in range(60):
        e = np.exp(-beta * m)
        se, te, tme, tmme = [math.fsum(x) for x in (e, t * e, t * m * e, t * m * m * e)]
        second = N * ((tme / te) ** 2 - tmme / te)
        if not second < -1e-7 * N:
            raise Skip('no curvature')
        new = beta - (N * tme / te - km) / second
        if not abs(new) < 50:
            raise Skip('divergent')
        step = abs(new - beta)
        if abs(step - tol) < 1e-7 * max(1, abs(new)) + 1e-6 * tol:
            raise Skip('step at the tolerance')
        if step <= tol:
            break
        beta = new
    else:
        raise Skip('no convergence')
    import mtoolkit.scientific.recurrence as R
    a = [arr(case['t']), arr(case['m']), arr(case['k'])]
    got = R.weichert(a[0], a[1], a[2], **kw)
    unchanged('weichert', [t, m, k], a)
    edge = m[0] - (m[1] - m[0]) / 2
    rate = N * se / te
    near(np.array(got[0]), np.array(new / math.log(10)), 'b-value', 1e-6, 1e-7)
    near(np.array(got[1]), np.array(math.sqrt(-1 / second) / math.log(10)), 'error of the b-value', 1e-6, 1e-9)
    if ref == 0:
        near(np.array(got[2]), np.array(rate), 'rate at the lowest edge', 1e-6, 0)
    else:
        x = rate * math.exp(-new * (ref - edge))
        near(np.array(got[2]), np.array(x), 'rate at the reference magnitude', 1e-5, 0)
        near(np.array(got[3]), np.array(x / math.sqrt(N)), 'error of the rate', 1e-5, 0)
