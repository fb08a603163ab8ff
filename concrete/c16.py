import math
import warnings
import numpy as np
from .base import *

RULE = ('10 to 60 events over 30 to 150 years with 1 to 6 completeness rows in groups of equal years, magnitudes on and around '
        'the completeness magnitudes; a case counts when the four weighted averages were compared with the definition, the '
        'period estimates being those of the module; the analysis is compared with the functions it must call')


def gen(g):
    n = g.size(10, 60)
    y1 = 2000
    k = g.size(1, 6)
    cy = sorted([y1 - g.pick(20, 20, 30, 50, 50, 80, g.int(10, 90)) for _ in range(k)], reverse=not g.chance(0.15))
    base = g.pick(3.0, 4.0, 4.5)
    cm = [round(base + g.pick(0.0, 0.2, 0.5, 1.0, 0.1 * g.int(0, 12)), 1) for _ in range(k)]
    if g.chance(0.6):
        cm.sort()
    mags = [g.pick(round(base + 0.05 + 0.1 * int(g.r.expovariate(0.25)), 2), g.r.choice(cm), g.r.choice(cm) - 0.03,
                   base + g.r.expovariate(2.0)) for _ in range(n)]
    return {'year': [y1 - g.int(0, g.pick(5, 40, 100)) for _ in range(n)], 'mag': mags, 'cy': [float(y) for y in cy], 'cm': cm,
            'd': g.pick(0.1, 0.2, 0.25), 'ref': g.pick(None, 0.0, 5.0, 4.3, g.real(-1, 8, 2)), 'tw': g.pick(1.0, 0.5, 5.0),
            'algo': g.pick('Weichert', 'MLE', 'mle', 'weichert', ''), 'shift': g.pick(0, 0, 1e-6, -1e-6, 2e-5, -2e-5)}


def run(case):
    warnings.simplefilter('ignore')
    import mtoolkit.scientific.recurrence as R
    mk = lambda: [arr(case['year']), arr(case['mag']) + 0.0, arr(case['cy']), arr(case['cm'])]
    year, mag, cy, cm = mk()
    if case['shift']:
        on = np.min(np.abs(mag[:, None] - cm[None, :]), axis=1) < 1e-9
        mag = mag + on * case['shift']
    inputs = [x.copy() for x in (year, mag, cy, cm)]
    d, ref = case['d'], case['ref'] or 0.0
    analysis(R, case, year, mag, cy, cm)
    rows, i = [], 0
    while i < len(cy):
        grp = np.abs(cy - cy[i]) < 1e-5
        mc = float(np.min(cm[grp]))
        if np.any(np.abs(mag - (mc - 1e-5)) < 1e-8):
            raise Skip('tie at the tolerance')
        sel = (year >= cy[i]) & (mag >= mc - 1e-5)
        if sel.sum() < 2:
            raise Skip('a period without events')
        nyr = float(year[sel].max() - year[sel].min() + 1)
        t = R.recurrence_table(mag[sel], d, year[sel])
        b, sb = R.b_max_likelihood(t[:, 0], t[:, 1], d, mc)
        if not (np.isfinite(b) and np.isfinite(sb)) or abs(b) > 50:
            raise Skip('no estimate')
        N = float(sel.sum())
        a = math.log10(N / nyr) + b * mc
        sa = abs(math.log10(N / nyr) + (b + sb) * ref - a)
        la = a - b * ref
        if abs(la) > 200 or abs(sa) > 200:
            raise Skip('out of range')
        rows.append((N, b, sb, 10 ** la, 10 ** sa))
        i += int(grp.sum())
    rows = np.array(rows)
    want = (rows[:, 1:] * rows[:, :1]).sum(axis=0) / rows[:, 0].sum()
    args = [year.copy(), mag.copy(), cy.copy(), cm.copy()]
    got = R.b_maxlike_time(*(args + [d] + ([] if case['ref'] is None else [case['ref']])))
    unchanged('b_maxlike_time', inputs, args)
    for x, w, what in zip(got, want, ('b-value', 'error of the b-value', 'rate', 'error of the rate')):
        near(np.array(float(x)), np.array(w), what, 1e-8, 1e-10 * abs(w))


def analysis(R, case, year, mag, cy, cm):
    """the analysis passes everything on in its role"""
    seen = []
    kept = R.weichert_prep, R.weichert, R.b_maxlike_time
    prep = (np.array([4.0, 4.1]), np.array([10.0, 20.0]), np.array([3.0, 1.0]))

    def wp(year, fmag, ctime, cmag, d_m, d_t):
        seen.append(('prep', year, fmag, ctime, cmag, d_m, d_t))
        return prep

    def we(tper, fmag, nobs, mrate=0.0, beta=1.5, itstab=1e-5):
        seen.append(('weichert', tper, fmag, nobs, mrate, beta, itstab))
        return 1.0, 2.0, 3.0, 4.0

    def bt(year, mag, ctime, cmag, dmag, ref_mag=0.0):
        seen.append(('maxlike', year, mag, ctime, cmag, dmag, ref_mag))
        return 5.0, 6.0, 7.0, 8.0
    R.weichert_prep, R.weichert, R.b_maxlike_time = wp, we, bt
    ref = 4.5 if case['ref'] is None else case['ref']
    try:
        r = R.recurrence_analysis(year, mag, np.column_stack([cy, cm]), case['d'], case['algo'], ref, case['tw'])
    finally:
        R.weichert_prep, R.weichert, R.b_maxlike_time = kept
    if case['algo'] == 'Weichert':
        want = [('prep', year, mag, cy, cm, case['d'], case['tw']), ('weichert', prep[1], prep[0], prep[2], ref, 1.5, 1e-5)]
        res = (1.0, 2.0, 3.0, 4.0)
    else:
        want = [('maxlike', year, mag, cy, cm, case['d'], ref)]
        res = (5.0, 6.0, 7.0, 8.0)
    need([s[0] for s in seen] == [w[0] for w in want], 'analysis called %s instead of %s', [s[0] for s in seen], [w[0] for w in want])
    for s, w in zip(seen, want):
        for i, (a, b) in enumerate(zip(s[1:], w[1:])):
            same_array(np.asarray(a), np.asarray(b), 'argument %d of %s' % (i, w[0]))
    need(tuple(r) == res, 'result of the analysis %s instead of %s', r, res)
