import math
import warnings
import numpy as np
from .base import *

RULE = ('1 to 40 events of whole years (or halves) and magnitudes with ties, completeness tables of 1 to 8 rows in any order, with '
        'repeated years and magnitudes, time and magnitude bins from 0.05 to larger than the catalogue; values within rounding of a '
        'cell edge only where the edges are exact; a case counts when every row was compared')


def gen(g):
    n = g.size(1, 40)
    exact = g.chance(0.5)
    y0 = g.pick(1, 1900, 1960, -100)
    span = g.pick(0, 1, 5, 30, 100)
    lo, w = g.pick(-1.0, 0.0, 3.0, 4.5), g.pick(0.0, 0.5, 2.0, 4.0)
    mag = [round(2 * g.r.uniform(lo, lo + w)) / 2.0 if exact else x for x in g.reals(n, lo, lo + w, g.pick(1, 2, 3))]
    k = g.size(1, 8)
    ct = [y0 + g.int(-3, span + 3) + g.pick(0, 0, 0, 0.5) for _ in range(k)]
    cm = [round(2 * g.r.uniform(lo - 1, lo + w + 1)) / 2.0 if exact else g.real(lo - 1, lo + w + 1, g.pick(1, 2, 3)) for _ in range(k)]
    if g.chance(0.6):
        ct.sort(reverse=True)
        cm.sort()
    c = {'year': [y0 + g.int(0, span) for _ in range(n)], 'mag': mag, 'ct': ct, 'cm': cm,
         'dm': g.pick(0.5, 1.0, 2.0, 8.0) if exact else g.pick(0.1, 0.15, 0.2, 0.37, 0.83, 0.05, 0.5, 3.1),
         'dt': g.pick(1.0, 0.5, 5.0, 10.0, 2.5, 200.0, g.real(0.5, 20, 2))}
    if g.chance(0.05):
        c['ct'] = c['ct'] + [y0]
    return c


def edges(xs, d, exact):
    lo, hi = min(xs), max(xs)
    q = (hi - lo) / d + 1.5
    if abs(q - round(q)) < 1e-7 and not exact:
        raise Skip('the number of cells is decided by rounding')
    n = math.ceil(q) - 1
    return [lo + k * d for k in range(n + 1)]


def before(e, k, x, exact):
    """edge k is less than x"""
    if not exact and k and abs(e[k] - x) < 1e-9 * (1 + abs(x)):
        raise Skip('a value on a rounded edge')
    return e[k] < x


def place(e, x, exact):
    k = 0
    while k + 1 < len(e) and (before(e, k + 1, x, exact) or e[k + 1] == x):
        k += 1
    return k


def run(case):
    warnings.simplefilter('ignore')
    import mtoolkit.scientific.recurrence as R
    mk = lambda: [arr(case['year']), arr(case['mag']), arr(case['ct']), arr(case['cm'])]
    a = mk()
    if len(case['ct']) != len(case['cm']):
        try:
            R.weichert_prep(*a + [case['dm'], case['dt']])
        except Exception:
            return unchanged('weichert_prep', mk(), a)
        bad('completeness columns of different length were accepted')
    ex = lambda v: all(x * 2 == int(x * 2) for x in v)
    for x in case['mag']:
        if abs(abs(x * 10 % 1) - 0.5) < 1e-6:
            raise Skip('rounding of the magnitude')
    mag = [round(x * 10) / 10.0 for x in case['mag']]
    et, em = ex(case['year'] + [case['dt']]), ex(mag + [case['dm']])
    te, me = edges(case['year'], case['dt'], et), edges(mag, case['dm'], em)
    nt, nm = len(te) - 1, len(me) - 1
    # cells of the events
    cell = {}
    for y, m in zip(case['year'], mag):
        k = (place(te, y, et), place(me, m, em))
        need(k[0] < nt and k[1] < nm, 'an error of the oracle: event (%s, %s)', y, m)
        cell[k] = cell.get(k, 0) + 1
    hid = [[any(before(te, i, y, et) and before(me, j, m, em) for y, m in zip(case['ct'], case['cm'])) for j in range(nm)]
           for i in range(nt)]
    last = max(case['year'])
    per = []
    for j in range(nm):
        rows = []
        for k, m in enumerate(case['cm']):
            if abs(m - me[j] - 1e-3) < 1e-9:
                raise Skip('a completeness magnitude at the tolerance')
            if m - me[j] < 1e-3:
                rows.append(k)
        per.append(last - case['ct'][rows[-1] if rows else -1] + 1)
    cent, tper, nobs = R.weichert_prep(*a + [case['dm'], case['dt']])
    unchanged('weichert_prep', mk(), a)
    near(cent, np.array([(me[j] + me[j + 1]) / 2 for j in range(nm)]), 'bin centres')
    near(tper, np.array(per, float), 'observation periods')
    near(nobs, np.array([float(sum(v for (i, j), v in cell.items() if j == b and not hid[i][j])) for b in range(nm)]), 'counts')
