"""C21: kernel helpers of the maximum magnitude estimation."""
from .common import *

A = [F('0.196854'), F('0.115194'), F('0.000344'), F('0.019527')]


def poly(z, sign):
    a = absv(z)
    return 1 + A[0] * a + sign * A[1] * a ** 2 + A[2] * a ** 3 + A[3] * a ** 4


def hastings(z, sign):
    y = 1 - num(1) / (2 * poly(z, sign) ** 4)
    return ite(z > 5, num(1), ite(z < 0, 1 - y, y))


def gauss(default):
    def run(v):
        v.world()
        m = v.load(MM)
        n = v.int('n', 0)
        x = v.array('x', n)
        bar, sig = (num(0), num(1)) if default else (v.real('mean'), v.real('sigma'))
        v.assume(sig > 0)
        fz = v.freeze(x)
        r = m.gauss_cdf_hastings(x) if default else m.gauss_cdf_hastings(x, bar, sig)
        v.unchanged('argument', fz)
        v.shape_is('distribution', r, n)
        z = lambda i: (x.at(i) - bar) / sig
        # below -5 the code returns 1 (known finding gauss-lower-tail); A[1] has the wrong sign (gauss-coefficient)
        upto = lambda s: forall(n, lambda i: implies(z(i) >= -5, num(r.at(i)) == hastings(z(i), s)))
        v.ensure('Hastings approximation (from -5), elementwise', lor(upto(-1), upto(1)))
        v.ensure_all('tail below -5', n, lambda i: implies(z(i) < -5, lor(num(r.at(i)) == 0, num(r.at(i)) == 1)))
    return run


def ranges(v):
    """lemmas about the approximation itself: its values lie within [0, 1], with either coefficient"""
    v.world()
    z = v.real('z')
    for s in (1, -1):
        a = absv(z)
        v.ensure('polynomial %+d' % s, poly(z, s) >= 1)
        p = v.real('p%d' % (s + 1), 1)
        y = 1 - num(1) / (2 * p ** 4)
        v.ensure('within [0, 1] %+d' % s, land(y >= F('1/2'), y <= 1, 1 - y >= 0))


def points(v):
    v.world()
    m = v.load(MM)
    n, lo, hi = v.int('n', 2), v.real('lower'), v.real('upper')
    v.assume(lo < hi)
    r = m.exp_spaced_points(lo, hi, n)
    v.shape_is('sample points', r, n)
    a, b = exp(lo), exp(hi)
    v.ensure('first point', num(r.at(num(0))) == lo)
    v.ensure('last point', num(r.at(n - 1)) == hi)
    v.ensure_all('exponentials equally spaced', n, lambda i: exp(num(r.at(i))) == a + i * (b - a) / (n - 1))


def smooth(v):
    v.world()
    m = v.load(MM)
    n = v.int('n', 1)
    mag = v.array('mag', n)
    q = {}

    def mquantiles(a, prob=(F('0.25'), F('0.5'), F('0.75')), **kw):
        if kw:
            raise Unsupported('mquantiles with ' + ', '.join(kw))
        v.shape_is('magnitudes given to mquantiles', a, n)
        v.ensure_all('magnitudes given to mquantiles', n, lambda i: num(a.at(i)) == mag.at(i))
        out = []
        for p in (prob.items() if isinstance(prob, SArr) else prob):
            p = num(p)
            if p.c is None:
                raise Unsupported('quantile of a symbolic probability')
            out.append(q.setdefault(p.c, v.real('quantile_%s' % p.c)))
        return npm.array(out)
    lib.HOOKS['mquantiles'] = mquantiles
    fz = v.freeze(mag)
    h = m.h_smooth(mag)
    v.unchanged('magnitudes', fz)
    if set(q) != {Fraction(1, 4), Fraction(3, 4)}:
        raise Unsupported('other quantiles than the quartiles')
    iqr = q[Fraction(3, 4)] - q[Fraction(1, 4)]
    n5 = n ** F('-1/5')
    rounded = lambda x: npm.around(100 * (F('0.9') * x * n5)) / 100
    # the standard deviation is ignored by the code (known finding h-smooth-std)
    std = [npm.std(mag, ddof=d) for d in (0, 1)]
    v.ensure('Silverman, rounded to two decimals',
             lor(num(h) == rounded(iqr / F('1.34')), *[num(h) == rounded(smin(s, iqr / F('1.34'))) for s in std]))


UNITS = [Unit('C21', 'gauss_cdf_hastings' + (' (defaults)' if d else ''), gauss(d), [MM + ':gauss_cdf_hastings'], budget=40)
         for d in (False, True)] + [
    Unit('C21', 'range of the approximation', ranges, []),
    Unit('C21', 'exp_spaced_points', points, [MM + ':exp_spaced_points']),
    Unit('C21', 'h_smooth', smooth, [MM + ':h_smooth'])]
