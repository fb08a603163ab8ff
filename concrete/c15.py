import math
import warnings
import numpy as np
from .base import *

RULE = ('1 to 40 magnitudes (negative ones too, ties frequent) and years in any order, bin widths of 0.05 to 3; magnitudes within '
        'rounding of a bin edge only where the edges are exact; tables of 1 to 30 rows for the b-value, with empty bins and '
        'completeness magnitudes on, between and below the bin centres; a case counts when every cell was compared')


def gen(g):
    n = g.size(1, 40)
    exact = g.chance(0.4)
    lo = g.pick(-1.0, 0.0, 3.0, 4.5, g.real(-1, 5, 2))
    w = g.pick(0.0, 0.3, 1.0, 3.0, 5.0)
    mag = [round(g.r.uniform(lo, lo + w) * 8) / 8.0 if exact else x for x in g.reals(n, lo, lo + w, g.pick(1, 2, 3, None))]
    y0 = g.pick(1, 1900, -300, 1999)
    k = g.size(1, 30)
    d = g.pick(0.1, 0.2, 0.5, 0.3, 1.0)
    start = g.pick(0.0, 3.05, 4.0, 5.5)
    m = [start + i * d for i in range(k)]
    if g.chance(0.2):
        g.r.shuffle(m)
    mc = g.pick(0.0, start, g.r.choice(m), g.r.choice(m) + 0.01, g.r.choice(m) - 0.02)
    return {'mag': mag, 'd': g.pick(0.25, 0.5, 1.0) if exact else g.pick(0.1, 0.2, 0.05, 0.3, 0.5, 0.7, 1.0, 3.0),
            'year': [y0 + g.int(0, g.pick(0, 1, 5, 80)) for _ in range(n)], 'mval': m,
            'nobs': [g.pick(0, 1, g.int(0, 50)) for _ in range(k)], 'bd': g.pick(None, d, d, 0.1), 'mc': g.pick(None, mc, mc, mc)}


def edges(mag, d):
    """bins up to the first edge above all events; None where rounding decides"""
    lo = min(math.floor(10.0 * x) / 10.0 for x in mag)
    hi = max(math.ceil(10.0 * x) / 10.0 for x in mag)
    for x in mag:
        q = (x - lo) / d
        if abs(q - round(q)) < 1e-7 and (lo * 8 % 1 or d * 8 % 1 or x * 8 % 1):
            raise Skip('an event on a rounded edge')
    q = (hi - lo) / d
    rows = {math.ceil(q) + 1}
    if abs(q - round(q)) < 1e-7:
        rows = {int(round(q)) + 1, int(round(q)) + 2} if (lo * 8 % 1 or d * 8 % 1 or hi * 8 % 1) else {int(round(q)) + 1}
    return lo, rows


def table(mag, d, year, rows, lo):
    span = max(year) - min(year) + 1.0
    out = []
    for i in range(rows):
        a, b = lo + d * i, lo + d * (i + 1)
        out.append([a + d / 2, float(sum(1 for x in mag if a <= x < b))])
    for i, r in enumerate(out):
        r.append(sum(q[1] for q in out[i:]))
    return np.array([r + [r[1] / span, r[2] / span] for r in out])


def run(case):
    warnings.simplefilter('ignore')
    import mtoolkit.scientific.recurrence as R
    mk = lambda: [arr(case['mag']), arr(case['year'])]
    a = mk()
    lo, rows = edges(case['mag'], case['d'])
    t = R.recurrence_table(a[0], case['d'], a[1])
    unchanged('recurrence_table', mk(), a)
    need(t.ndim == 2 and t.shape[1] == 5 and t.shape[0] in rows, 'recurrence table of shape %s, rows wanted %s', t.shape, sorted(rows))
    want = table(case['mag'], case['d'], case['year'], t.shape[0], lo)
    for j, what in enumerate(('bin centre', 'number of events', 'cumulative number', 'annual number', 'annual cumulative number')):
        near(t[:, j], want[:, j], what)
    mv, nb = arr(case['mval']), arr(case['nobs'])
    kw = {}
    if case['bd'] is not None:
        kw['dmag'] = case['bd']
    if case['mc'] is not None:
        kw['m_c'] = case['mc']
    d, mc = kw.get('dmag', 0.1), kw.get('m_c', 0.0)
    use = [(m, k) for m, k in zip(case['mval'], case['nobs']) if m >= mc]
    N = sum(k for m, k in use)
    if N < 2:
        return
    ave = sum(m * k for m, k in use) / float(N)
    q = ave - min(m for m, k in use) + d / 2
    if q < 1e-6:
        return
    b = math.log10(math.e) / q
    sb = 2.3 * b ** 2 * math.sqrt(sum(k * (m - ave) ** 2 for m, k in use) / (N * (N - 1.0)))
    got = R.b_max_likelihood(mv, nb, **kw)
    unchanged('b_max_likelihood', [arr(case['mval']), arr(case['nobs'])], [mv, nb])
    near(np.array(got[0]), np.array(b), 'b-value', 1e-8, 1e-8)
    near(np.array(got[1]), np.array(sb), "Bender's error", 1e-7, 1e-7)
