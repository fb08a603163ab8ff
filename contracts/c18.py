"""C18: Weichert's maximum likelihood estimate."""
from .common import *

E = z3.Function('BETA', I, Rl)


class Likelihood(object):
    """the sums of Weichert's likelihood equation at beta"""
    def __init__(self, n, t, m, k, beta):
        s = lambda f: mkred('sum', 0, n, f)
        e = lambda i: exp(-beta * m.at(i))
        self.N = s(lambda i: k.at(i))
        self.km = s(lambda i: k.at(i) * m.at(i))
        self.e = s(e)
        self.te = s(lambda i: t.at(i) * e(i))
        self.tme = s(lambda i: t.at(i) * m.at(i) * e(i))
        self.tmme = s(lambda i: t.at(i) * m.at(i) ** 2 * e(i))
        self.first = self.N * self.tme / self.te - self.km
        self.second = self.N * ((self.tme / self.te) ** 2 - self.tmme / self.te)
        self.step = beta - self.first / self.second


def weichert(case):
    def run(v):
        v.world()
        m = v.load(RE)
        n = v.int('n', 2)
        tper, fmag, nobs = v.array('tper', n), v.array('fmag', n), v.array('nobs', n)
        v.assume(forall(n, lambda i: land(tper.at(i) > 0, nobs.at(i) >= 0)))
        L = lambda b: Likelihood(n, tper, fmag, nobs, b)
        kw, mrate, beta0, tol = {}, num(0), F('1.5'), F('1E-5')
        if case != 'defaults':
            beta0, tol = v.real('beta'), v.real('itstab')
            v.assume(tol > 0)
            mrate = v.real('mrate')
            v.assume(mrate == 0 if case == 'no reference magnitude' else mrate != 0)
            kw = dict(mrate=mrate, beta=beta0, itstab=tol)
        x = z3.Int('x')
        RT.assume(E(0) == toreal(beta0).real())
        RT.assume(z3.ForAll([x], z3.Implies(x >= 0, E(x + 1) == toreal(L(mknum(E(x))).step).real())))
        est = lambda j: mknum(E(zi(num(j))))
        v.invariant('while', lambda st: [('the current beta', num(st['beta']) == est(st.k))])
        fz = v.freeze(tper, fmag, nobs)
        b, sb, rate, srate = m.weichert(tper, fmag, nobs, **kw)
        v.unchanged('inputs', fz)
        if len(v.whiles) != 1:
            raise Unsupported('not one iteration loop')
        last = v.whiles[0][1]
        v.ensure('at least one step', last >= 1)
        old, new = est(last - 1), est(last)
        l = L(old)
        v.ensure('the b-value is that of the last step', num(b) == new / ln(num(10)))
        v.ensure('the last step is within the tolerance', absv(new - old) <= tol)
        v.ensure('error of the b-value', num(sb) == sqrt(-1 / l.second) / ln(num(10)))
        edge = fmag.at(num(0)) - (fmag.at(num(1)) - fmag.at(num(0))) / 2
        base = l.N * l.e / l.te
        if case == 'reference magnitude':
            v.ensure('rate at the reference magnitude', num(rate) == base * exp(-new * (mrate - edge)))
            v.ensure('error of the rate', num(srate) == num(rate) / sqrt(l.N))
        else:
            v.ensure('rate at the lowest edge', num(rate) == base)
    return run


UNITS = [Unit('C18', 'weichert, ' + c, weichert(c), [RE + ':weichert'])
         for c in ('reference magnitude', 'no reference magnitude', 'defaults')]
