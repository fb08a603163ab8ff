import warnings
import numpy as np
from .base import *

RULE = ('1 to 25 events over 1 to 60 years with empty years, several events per year, years negative and unsorted; bootstraps '
        'of 2 to 12 samples, seeded and not; a case counts when estimate, mean and deviation were compared with the definition')


def gen(g):
    n = g.size(1, 25)
    y0 = g.pick(1900, 2000, 1, -500, 1350)
    span = g.pick(0, 1, 3, 10, 60)
    return {'year': [y0 + g.int(0, span) for _ in range(n)], 'mag': g.reals(n, 3, 9, 2), 'sig': g.reals(n, 0, 0.5, 2),
            'nb': g.pick(2, 3, 12), 'seed': g.pick(None, 0, 1, 42, g.int(0, 10 ** 6)), 'int_years': g.chance(0.3)}


def value(year, mag):
    lo, hi = int(min(year)), int(max(year))
    rate = [0.0] * (hi - lo + 1)
    for y, m in zip(year, mag):
        rate[int(y) - lo] += 10 ** (9.05 + 1.5 * m)
    mean = sum(rate) / len(rate)
    d = np.cumsum(rate) - mean * np.arange(1, len(rate) + 1)
    D = abs(np.max(d)) + abs(np.min(d))
    if D < 1e-6 * sum(rate):
        raise Skip('no deviation')
    return 2.0 / 3 * (np.log10(D) - 9.05)


def run(case):
    warnings.simplefilter('ignore')
    import mtoolkit.scientific.maximum_magnitude as M
    mk = lambda: [np.array(case['year'], int if case['int_years'] else float), arr(case['mag']), arr(case['sig'])]
    a = mk()
    e = value(case['year'], case['mag'])
    near(np.array(M.cumulative_moment(a[0], a[1])), np.array(e), 'cumulative moment estimate', 1e-9, 1e-9)
    unchanged('cumulative_moment', mk(), a)
    nb, seed = case['nb'], case['seed']
    a = mk()
    if seed is None:
        np.random.seed(12345)
        r = M.cum_mo_uncertainty(a[0], a[1], a[2], nb)
        s = np.random.RandomState(12345)
    else:
        np.random.seed(99)
        r = M.cum_mo_uncertainty(a[0], a[1], a[2], nb, seed)
        s = np.random.RandomState(seed)
    unchanged('cum_mo_uncertainty', mk(), a)
    x = [value(case['year'], a[1] + a[2] * s.normal(0, 1, len(a[1]))) for _ in range(nb)]
    near(np.array(r[0]), np.array(np.mean(x)), 'mean of the estimates', 1e-9, 1e-9)
    near(np.array(r[1]), np.array(np.std(x, ddof=1)), 'deviation of the estimates', 1e-8, 1e-8)
