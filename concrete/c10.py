import numpy as np
from .base import *

RULE = ('magnitude vectors of 1 to 12 values in (0, 10], with ties and literals of the source; a case counts when '
        'every window of the three classes was compared with the published formula')


def gen(g):
    n = g.size(1, 12)
    m = g.reals(n, 0.01, 9.9, g.pick(None, 1, 2))
    if g.chance(0.3):
        m[g.int(0, n - 1)] = g.pick(6.5, 6.4999999, 6.5000001, 6.4, 6.6)
    return {'m': m}


def gk(m):
    return 10 ** (0.1238 * m + 0.983), np.where(m < 6.5, 10 ** (0.5409 * m - 0.547), 10 ** (0.032 * m + 2.7389)) / 365.


def gr(m):
    return np.exp(1.77 + np.sqrt(0.037 + 1.02 * m)), np.where(
        m < 6.5, np.abs(np.exp(-3.95 + np.sqrt(0.62 + 17.32 * m))), 10 ** (2.8 + 0.024 * m)) / 365.


def uh(m):
    return np.exp(-1.024 + 0.804 * m), np.exp(-2.87 + 1.235 * m / 365.)


REF = {'GardnerKnopoff': ('GardnerKnopoffWindow', gk), 'Gruenthal': ('GruenthalWindow', gr),
       'Uhrhammer': ('UhrhammerWindow', uh)}


def run(case):
    import mtoolkit.scientific.declustering as d
    need(sorted(d.time_dist_windows) == sorted(REF), 'windows offered: %s', sorted(d.time_dist_windows))
    for name in sorted(REF):
        cls, f = REF[name]
        for w in (d.time_dist_windows[name], getattr(d, cls)()):
            m = arr(case['m'])
            s, t = w.calc(m)
            unchanged(cls, [arr(case['m'])], [m])
            es, et = f(arr(case['m']))
            near(s, es, cls + ' distance window of %s' % case['m'])
            near(t, et, cls + ' time window of %s' % case['m'])
