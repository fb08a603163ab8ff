import warnings
import numpy as np
from .base import *

RULE = ('2 to 40 magnitudes (ties frequent, unsorted), with fewer and more events than requested, with and without a given '
        'maximum, few and many iterations allowed; a case counts when the estimate, its error and the integral were '
        'compared with the definition, the helper functions being those of the module')


def gen(g):
    n = g.size(2, 40)
    top = g.r.uniform(5.5, 8.5)
    mag = g.reals(n, 4.0, top, g.pick(1, 2, None))
    k = g.pick(g.int(1, n), g.int(n, n + 30), n, g.int(max(1, n - 3), n))
    return {'mag': mag, 'sig': g.reals(n, 0.05, 0.5, 3), 'neq': k, 'samples': g.pick(2, 3, 5, 20, g.int(2, 60)),
            'tol': g.pick(0.05, 0.01, 1e-3, 0.5, 1e-5), 'maxit': g.pick(0, 1, 2, 3, 10, 100),
            'given': None if g.chance(0.5) else [max(mag) + g.pick(0.0, 0.3, g.real(0, 1)), g.real(0.05, 0.4)],
            'given_as': g.pick('tuple', 'list')}


def helpers(M):
    def points(lo, hi, n):
        return np.log(np.linspace(np.exp(lo), np.exp(hi), int(n)))

    def smooth(mag):
        from scipy.stats.mstats import mquantiles
        q = mquantiles(mag, prob=[0.25, 0.75])
        return np.round(100 * 0.9 * (q[1] - q[0]) / 1.34 * len(mag) ** -0.2) / 100

    def gauss(x):
        raise Skip('no distribution function')
    return (getattr(M, 'exp_spaced_points', points), getattr(M, 'h_smooth', smooth), getattr(M, 'gauss_cdf_hastings', gauss))


def integral(gauss, mval, mag, h, neq):
    lo, hi = min(mval), max(mval)
    f = []
    q = np.sum(gauss((hi - mag) / h) - gauss((lo - mag) / h))
    for x in mval:
        f.append((np.sum(gauss((x - mag) / h) - gauss((lo - mag) / h)) / q) ** neq)
    r = f[0] * (mval[1] - mval[0]) / 2 + f[-1] * (mval[-1] - mval[-2]) / 2
    for i in range(1, len(mval) - 1):
        r += f[i] * (mval[i + 1] - mval[i - 1]) / 2
    return r


def run(case):
    warnings.simplefilter('ignore')
    import mtoolkit.scientific.maximum_magnitude as M
    points, smooth, gauss = helpers(M)
    mk = lambda: [arr(case['mag']), arr(case['sig'])]
    mag, sig = mk()
    n, k, tol = len(mag), case['neq'], case['tol']
    big = np.sort(mag)[-k:] if n > k else mag.copy()
    h = smooth(big.copy())
    if not h > 0:
        raise Skip('no spread')
    given = case['given']
    obs = given[0] if given else float(np.max(mag))
    lo = np.min(big)
    if not obs > lo:
        raise Skip('one magnitude')
    osig = [given[1]] if given else [s for m, s in zip(mag, sig) if m == obs]
    if given is None:
        osig = osig[:1]
    x, j = obs, 0
    while True:
        d = integral(gauss, points(lo, x, case['samples']), big, h, float(len(big)))
        y = obs + d
        j += 1
        if not np.isfinite(y):
            raise Skip('not finite')
        if abs(abs(y - x) - tol) < 1e-9 * max(1, tol):
            raise Skip('at the tolerance')
        stop = abs(y - x) <= tol or j > case['maxit']
        x = y
        if stop:
            break
    mx = False if not given else tuple(given) if case['given_as'] == 'tuple' else list(given)
    a = mk()
    mm, ms = M.kijko_nonparametric_gauss(a[0], a[1], k, case['samples'], tol, case['maxit'], mx)
    unchanged('kijko_nonparametric_gauss', mk(), a)
    near(np.array(float(mm)), np.array(x), 'estimate', 1e-9, 1e-9)
    near(np.array(float(ms)), np.array(np.sqrt(osig[0] ** 2 + d ** 2)), 'error of the estimate', 1e-9, 1e-9)
    f = getattr(M, 'kijko_npg_intfunc_simps', None)
    if f is not None:
        p = points(lo, obs, case['samples'])
        b = [np.array(p), big.copy()]
        near(np.array(float(f(b[0], b[1], h, float(len(big))))), np.array(integral(gauss, p, big, h, float(len(big)))),
             'integral', 1e-9, 1e-12)
        unchanged('kijko_npg_intfunc_simps', [p, big], b)
