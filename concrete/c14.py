import math
import numpy as np
from .base import *

RULE = ('catalogues of 1 to 40 events over 3 to 60 time steps, years with and without fractions, magnitudes with up to three decimals, also '
        'on the edges of the bins, bin widths of 0.1 to 1, sensitivities of 0 to 1, with and without the lock; slopes within 1e-9 of the '
        'sensitivity and events on an edge which rounding moves are skipped')


def gen(g):
    n = g.pick(g.int(2, 8), g.int(5, 25), g.int(10, 40))
    dt = g.pick(1, 1, 1, 2, 5, 10, 3)
    span = dt * g.pick(3, g.int(3, 12), g.int(5, 60)) + g.int(0, dt - 1)
    end = g.pick(2010, 2000, 1999, g.int(1000, 2026), g.int(-500, 500))
    frac = g.chance(.15)
    y = [end, end - span] + [end - g.pick(g.int(0, span), g.int(0, span), min(span, int(g.r.expovariate(3. / span)))) for _ in range(n - 2)]
    y = [float(x) for x in y]
    if frac:
        y[2:] = [min(float(end), x + g.pick(0, .5, .25)) for x in y[2:]]
    dm = g.pick(.1, .2, .25, .3, .5, .5, 1., 1., .75, g.real(.1, 1, 2))
    dig = g.pick(0, 1, 2, 2, 3)
    lo = g.pick(4., 5., 3.5, 4.95, g.real(2, 5, 2))
    w = g.pick(.3, 1., 2., 4.)
    m = [round(lo + w * min(1, g.r.expovariate(3)), dig) if g.chance(.6) else round(g.real(lo, lo + w), dig) for _ in range(n)]
    if g.chance(.3):
        m = [float(x) for x in np.round(np.array(m) * 4) / 4]
    o = list(range(n))
    g.r.shuffle(o)
    return {'year': [y[i] for i in o], 'mag': [m[i] for i in o], 'dm': dm, 'dt': dt, 'ttol': g.pick(.2, .2, .1, .05, .5, 0., g.real(0, 1, 3)),
            'lock': g.pick(0, 1), 'default': g.pick('', '', '', 'dm', 'dt', 'ttol', 'lock', 'all')}


def departs(t, c):
    """size of the change of the slope at each time step"""
    sd = np.maximum(np.sqrt(c / t / t), 1e-14)
    s = (np.log10(sd[1:]) - np.log10(sd[:-1])) / (np.log10(t[1:]) - np.log10(t[:-1]))
    r = s + .5
    return np.abs(r[1:] - r[:-1])


def run(case):
    from mtoolkit.scientific.completeness import stepp_analysis
    Y, M = arr(case['year']), arr(case['mag'])
    n = len(Y)
    kw = {'dm': case['dm'], 'dt': case['dt'], 'ttol': case['ttol'], 'iloc': bool(case['lock'])}
    names = {'dm': .1, 'dt': 1, 'ttol': .2, 'lock': True}
    d = case['default']
    for k in names:
        if d in (k, 'all'):
            kw.pop('iloc' if k == 'lock' else k)
    dm, dt, ttol, lock = [kw.get(k, v) for k, v in (('dm', .1), ('dt', 1), ('ttol', .2), ('iloc', True))]
    mw = np.array([round(100 * x) / 100. for x in M])
    for a, b in zip(M, mw):
        if abs(abs(100 * a - math.floor(100 * a)) - .5) < 1e-6:
            raise Skip('a magnitude half way between hundredths')
    lo = math.floor(10 * min(mw) + 1e-9) / 10
    hi = math.ceil(10 * max(mw) - 1e-9) / 10
    if math.floor(10 * min(mw)) / 10. != lo or math.ceil(10 * max(mw)) / 10. != hi:
        raise Skip('rounding of the extreme magnitude')
    if hi <= lo:
        raise Skip('no magnitude bin')
    end, span = max(Y), max(Y) - min(Y)
    nt = int(math.ceil((span + 2) / dt)) - 1
    if nt < 3:
        raise Skip('few time steps')
    a, b = Y.copy(), M.copy()
    r = stepp_analysis(a, b, **kw)
    unchanged('stepp_analysis', (Y, M), (a, b))
    need(np.ndim(r) == 2 and np.shape(r)[1] == 2, 'the table has shape %s', np.shape(r))
    x = (hi - lo) / dm
    sizes = set([max(1, int(math.ceil(x - 1e-9))), int(math.ceil(x + 1e-9))])
    nb = len(r)
    need(nb in sizes, '%d bins instead of %s', nb, sorted(sizes))
    r = np.asarray(r, float)
    edges = lo + dm * np.arange(nb + 1)
    near(r[:, 1], edges[:-1], 'lower edges')
    other = np.arange(lo, lo + (nb + .5) * dm, dm)
    t = dt * np.arange(1., nt + 1)
    got = end - r[:, 0]
    at = [np.flatnonzero(np.abs(t - x) < 1e-6) for x in got]
    need(all(len(x) for x in at), 'durations %s are not time steps', short(got))
    at = [int(x[0]) for x in at]
    if lock:
        need(all(at[i] >= at[i - 1] for i in range(1, nb)), 'years %s increase with the magnitude', short(r[:, 0]))
    for e in range(1, nb):
        for x in mw:
            if len(set([x >= edges[e], x >= other[e], x >= round(edges[e], 9)])) > 1:
                raise Skip('an event on an edge moved by rounding')
    for j in range(nb):
        inside = (mw >= edges[j]) & ((mw < edges[j + 1]) | (j == nb - 1))
        c = np.array([float(np.sum(inside & (Y >= end - s))) for s in t])
        ch = departs(t, c)
        if np.any(np.abs(ch - ttol) < 1e-9):
            raise Skip('a change equal to the sensitivity')
        k = np.flatnonzero(ch > ttol)
        if len(k):
            w = int(k[-1])
            if lock and j:
                w = max(w, at[j - 1])
        elif j:
            w = at[j - 1]
        else:
            continue
        need(at[j] == w, 'bin %d: duration %s instead of %s (changes of the slope %s)', j, t[at[j]], t[w], short(ch))
