import math
import warnings
import numpy as np
from .base import *

RULE = ('arguments over and beyond the approximation range, also exactly at 0 and +-5, with other means and deviations; '
        'bounds and sample numbers; magnitude samples with all orders of spread; a case counts when the distribution, the '
        'sample points and the smoothing factor were compared with their definitions (those listed as known findings apart)')


def gen(g):
    n = g.size(1, 15)
    s = g.pick(1.0, g.real(0.05, 3))
    m = g.pick(0.0, g.real(-3, 8))
    xs = [m + s * z for z in g.reals(n, -9, 9)] + [m + s * g.pick(0.0, 4.999, -4.999, 5.001, 6.0, -0.001)]
    lo = g.real(3, 6)
    return {'x': xs, 'bar': m, 'sig': s, 'default': g.chance(0.3), 'lo': lo, 'hi': lo + g.real(0.05, 3),
            'n': g.pick(2, 3, 10, 100, g.int(2, 200)), 'mag': g.reals(g.size(2, 40), 4, 8, g.pick(1, 2))}


def hastings(z, c2=0.115194):
    a = abs(z)
    if z < -5:
        return 0.0
    if z > 5:
        return 1.0
    y = 1 - 0.5 * (1 + 0.196854 * a + c2 * a ** 2 + 0.000344 * a ** 3 + 0.019527 * a ** 4) ** -4.0
    return y if z >= 0 else 1 - y


def silverman(mag):
    from scipy.stats.mstats import mquantiles
    q = mquantiles(mag, prob=[0.25, 0.75])
    return 0.9 * (q[1] - q[0]) / 1.34 * len(mag) ** -0.2, 0.9 * np.std(mag, ddof=1) * len(mag) ** -0.2, \
        0.9 * np.std(mag) * len(mag) ** -0.2


KNOWN = {
    'gauss-coefficient': {'x': [1.0], 'bar': 0.0, 'sig': 1.0, 'default': True, 'lo': 4.0, 'hi': 5.0, 'n': 3, 'mag': [4.0, 5.0, 6.0]},
    'gauss-lower-tail': {'x': [-6.0], 'bar': 0.0, 'sig': 1.0, 'default': True, 'lo': 4.0, 'hi': 5.0, 'n': 3, 'mag': [4.0, 5.0, 6.0]},
    'h-smooth-std': {'x': [0.0], 'bar': 0.0, 'sig': 1.0, 'default': True, 'lo': 4.0, 'hi': 5.0, 'n': 3,
                     'mag': [4.0, 4.0, 4.0, 6.0, 6.0, 6.0]}}


def run(case):
    tail, std, sign = (case.get('known') == k for k in ('gauss-lower-tail', 'h-smooth-std', 'gauss-coefficient'))
    warnings.simplefilter('ignore')
    import mtoolkit.scientific.maximum_magnitude as M
    bar, sig = (0.0, 1.0) if case['default'] else (case['bar'], case['sig'])
    z = [(x - bar) / sig for x in case['x']]
    if any(abs(abs(v) - 5) < 1e-9 for v in z):
        raise Skip('at the end of the range')
    a = arr(case['x'])
    y = M.gauss_cdf_hastings(a) if case['default'] else M.gauss_cdf_hastings(a, bar, sig)
    unchanged('gauss_cdf_hastings', [arr(case['x'])], [a])
    need(np.shape(y) == np.shape(a), 'one value per argument: shape %s', np.shape(y))
    # known finding: the second coefficient has the wrong sign, and the lower tail is 1.0; nothing else is let pass
    ok = lambda c2: all(abs(r - hastings(v, c2)) < 1e-9 for v, r in zip(z, y) if tail or not v < -5)
    need(ok(0.115194) or (ok(-0.115194) and not sign), 'distribution at %s: %s instead of %s', z, y,
         [hastings(v) for v in z])
    for v, r in zip(z, y):
        need(0 <= r <= 1, 'distribution at %s: %s', v, r)
        if v < -5 and not tail:
            need(r in (0.0, 1.0), 'distribution at %s: %s', v, r)
        elif ok(0.115194):
            need(abs(r - 0.5 * math.erfc(-v / math.sqrt(2))) < 0.0003, 'distribution at %s: %s', v, r)
    p = M.exp_spaced_points(case['lo'], case['hi'], case['n'])
    need(np.shape(p) == (case['n'],), '%s sample points instead of %d', np.shape(p), case['n'])
    near(np.exp(p), np.exp(case['lo']) + np.arange(case['n']) * (np.exp(case['hi']) - np.exp(case['lo'])) / (case['n'] - 1),
         'exponentials of the sample points', 1e-9, 1e-9)
    m = arr(case['mag'])
    h = M.h_smooth(m)
    unchanged('h_smooth', [arr(case['mag'])], [m])
    q, s1, s0 = silverman(case['mag'])
    if not std and not q <= min(s1, s0):
        return                                         # known finding: the standard deviation is ignored
    lo = round(min(q, s0), 12), round(min(q, s1), 12)
    need(any(abs(h - round(100 * e) / 100) < 1e-9 or (abs(100 * e % 1 - 0.5) < 1e-6 and abs(h - e) < 0.0051) for e in lo),
         'smoothing factor %s instead of %s (rounded)', h, lo)
