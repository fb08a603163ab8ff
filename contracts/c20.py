"""C20: non-parametric maximum magnitude."""
from .common import *

G = z3.Function('CDF', Rl, Rl)


def gauss(xval, barx=0, sigx=1):
    """contract of gauss_cdf_hastings (C21): elementwise"""
    return arr.ew(lambda x: mknum(G(toreal((x - num(barx)) / num(sigx)).real())), xval, dt='f')


def integral(mval, mag, n, ne, h, neq):
    lo = mkred('min', 0, n, lambda i: mval.at(i))
    hi = mkred('max', 0, n, lambda i: mval.at(i))
    g = lambda x: mknum(G(toreal(x).real()))

    def cdf(i):
        p = mkred('sum', 0, ne, lambda e: g((mval.at(i) - mag.at(e)) / h) - g((lo - mag.at(e)) / h))
        q = mkred('sum', 0, ne, lambda e: g((hi - mag.at(e)) / h) - g((lo - mag.at(e)) / h))
        return (p / q) ** neq
    m = lambda i: mval.at(i)
    return (cdf(num(0)) * (m(num(1)) - m(num(0))) / 2 +
            mkred('sum', 0, n - 2, lambda i: cdf(num(i) + 1) * (m(num(i) + 2) - m(num(i))) / 2) +
            cdf(n - 1) * (m(n - 1) - m(n - 2)) / 2)


def intfunc(v):
    v.world({MM + ':gauss_cdf_hastings': gauss})
    m = v.load(MM)
    n, ne = v.int('n', 2), v.int('ne', 1)
    mval, mag = v.array('mval', n), v.array('mag', ne)
    h, neq = v.real('h'), v.real('neq', 1)
    v.assume(h > 0)
    fz = v.freeze(mval, mag)
    r = m.kijko_npg_intfunc_simps(mval, mag, h, neq)
    v.unchanged('inputs', fz)
    v.ensure('trapezoidal sum of the normalised kernel distribution to the power of the number of events',
             r == integral(mval, mag, n, ne, h, neq))


PT = z3.Function('POINTS', Rl, Rl, Rl, I, Rl)
IN = z3.Function('INTEGRAL', Rl, Rl, Rl, Rl, Rl, Rl)
E = z3.Function('ESTIMATE', I, Rl)


def real(x):
    return toreal(num(sym.force(x))).real()


def estimate(cut, given):
    """the callees by contract: what they are given is checked, what they return is a function of it"""
    def run(v):
        n, k = v.int('n', 1), v.int('neq', 1)
        v.assume(n > k if cut else n <= k)
        mag, sig = v.array('mag', n), v.array('sig', n)
        ns, tol, maxit, H = v.int('samples', 2), v.real('tol'), v.int('maxit', 0), v.real('H')
        v.assume(land(tol > 0, tol < 10 ** 8, H > 0))
        size = k if cut else n
        lo = mkred('min', 0, size, lambda i: (npm.sort(mag).at(n - k + i) if cut else mag.at(i)))

        def largest(name, a):
            v.shape_is(name, a, size)
            e = npm.sort(mag) if cut else mag
            v.ensure_all(name + ': the largest magnitudes' if cut else name + ': all magnitudes', size,
                         lambda i: a.at(i) == e.at(n - size + i))

        def points(lower, upper, nsamp):
            a, b, c = real(lower), real(upper), real(nsamp)
            return SArr((num(nsamp),), lambda ix: mknum(PT(a, b, c, ix[0])), 'f')

        def smooth(a):
            largest('magnitudes given to h_smooth', a)
            return H

        def intfunc(mval, mg, h, neq):
            largest('magnitudes given to the integral', mg)
            v.shape_is('sample points given to the integral', mval, ns)
            p = real(mval.at(num(0)))
            if not (z3.is_app(p) and p.decl().eq(PT)):
                raise Unsupported('the sample points are not those of exp_spaced_points')
            a, b, c = p.arg(0), p.arg(1), p.arg(2)
            v.ensure_all('sample points given to the integral', ns, lambda i: mval.at(i) == mknum(PT(a, b, c, zi(i))))
            v.ensure('number of sample points', mknum(c) == ns)
            return mknum(IN(a, b, c, real(h), real(neq)))
        v.world({MM + ':exp_spaced_points': points, MM + ':kijko_npg_intfunc_simps': intfunc, MM + ':h_smooth': smooth})
        m = v.load(MM)
        obs = (v.real('obsmax'), v.real('obssig')) if given else False
        omax = obs[0] if given else mkred('max', 0, n, lambda i: mag.at(i))
        osig = obs[1] if given else sig.at(npm.argmax(mag))
        integ = lambda up: mknum(IN(real(lo), real(up), real(ns), real(H), real(size)))
        # the estimates: E(0) is the observed maximum, E(j + 1) the observed maximum plus the integral up to E(j)
        x = z3.Int('x')
        RT.assume(E(0) == real(omax))
        RT.assume(z3.ForAll([x], z3.Implies(x >= 0, E(x + 1) == real(omax + integ(mknum(E(x)))))))
        est = lambda j: mknum(E(zi(num(j))))
        v.terminates(lambda st: maxit + 1 - st.k)
        v.invariant('while', lambda st: [('the current estimate', num(st['mmax']) == est(st.k))])
        fz = v.freeze(mag, sig)
        mm, ms = m.kijko_nonparametric_gauss(mag, sig, k, ns, tol, maxit, obs)
        v.needs_termination()
        v.unchanged('inputs', fz)
        if len(v.whiles) != 1:
            raise Unsupported('not one iteration loop')
        last = v.whiles[0][1]
        v.ensure('number of iterations', land(last >= 1, last <= maxit + 1))
        v.ensure('the estimate is the last one', mm == est(last))
        v.ensure('its error', ms == sqrt(osig ** 2 + integ(est(last - 1)) ** 2))
        v.ensure('converged, or the maximum number of iterations was exceeded',
                 lor(absv(est(last) - est(last - 1)) <= tol, last == maxit + 1))
        v.ensure_all('not ended before', last - 1, lambda j: absv(est(j + 1) - est(j)) > tol)
    return run


UNITS = [Unit('C20', 'kijko_npg_intfunc_simps', intfunc, [MM + ':kijko_npg_intfunc_simps'])] + [
    Unit('C20', 'kijko_nonparametric_gauss, %s events, %s' % ('more' if c else 'at most the requested number of',
                                                              'maximum given' if g else 'maximum observed'),
         estimate(c, g), [MM + ':kijko_nonparametric_gauss']) for c in (False, True) for g in (False, True)]
