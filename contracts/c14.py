"""C14: Stepp completeness table."""
from .common import *
from pyvc.sym import forall2


def N(x):
    """the same value in normal form"""
    return mknum(sym.norm(toreal(x).z)) if num(x).c is None else x


class Ref(object):
    """counts, slopes and the steps at which the slope departs from the Poisson slope"""
    def __init__(self, Y, M, n, dm, dt, ttol):
        self.Y, self.n, self.dm, self.dt, self.ttol = Y, n, dm, dt, ttol
        self.mw = mw = SArr((n,), lambda ix: sym.rnd(100 * M.at(ix[0])) / 100, 'f')
        self.lo = floor(10 * mkred('min', 0, n, lambda i: mw.at(i))) / 10
        self.hi = ceil(10 * mkred('max', 0, n, lambda i: mw.at(i))) / 10
        self.end = mkred('max', 0, n, lambda i: Y.at(i))
        self.start = mkred('min', 0, n, lambda i: Y.at(i))
        self.nb = num(npm.arange(self.lo, self.hi + dm, dm).shape[0]) - 1
        self.nt = num(npm.arange(dt, self.end - self.start + 2, dt).shape[0])

    def edge(self, j):
        return self.lo + self.dm * num(j)

    def step(self, i):
        return self.dt + self.dt * num(i)

    def count(self, i, j):
        return mkred('count', 0, self.n, lambda e: 1, lambda e: land(
            self.Y.at(e) >= self.end - self.step(i), self.mw.at(e) >= self.edge(j),
            lor(num(j) == self.nb - 1, self.mw.at(e) < self.edge(num(j) + 1))))

    def dev(self, i, j, count):
        s = sqrt(N(N(toreal(count(i, j)) / self.step(i)) / self.step(i)))
        return ite(s >= F('1e-14'), s, F('1e-14'))

    def slope(self, f, i):
        return N(N(log10(N(f(num(i) + 1))) - log10(N(f(i)))) / N(log10(N(self.step(num(i) + 1))) - log10(N(self.step(i)))))

    def exceeds(self, k, j, count=None):
        res = lambda i: self.slope(lambda q: self.dev(q, j, count or self.count), i) - self.slope(lambda q: 1 / sqrt(self.step(q)), i)
        return absv(N(N(res(num(k) + 1)) - N(res(k)))) > self.ttol

    def some(self, j, count=None):
        return mkred('count', 0, self.nt - 2, lambda k: 1, lambda k: self.exceeds(mknum(k), j, count)) >= 1

    def last(self, j, count=None):
        d = npm.nonzero(SArr((self.nt - 2,), lambda ix: self.exceeds(mknum(ix[0]), j, count), 'b'))[0]
        return d.at(num(d.shape[0]) - 1)


def run(v, iloc):
    v.world()
    m = v.load(CO)
    n = v.int('n', 1)
    Y, M = v.array('year', n), v.array('mag', n)
    dm, dt, ttol = v.real('dm'), v.int('dt', 1), v.real('ttol', 0)
    v.assume(dm > 0)
    ref = Ref(Y, M, n, dm, dt, ttol)
    lo, hi, end, nb, nt, edge, step = ref.lo, ref.hi, ref.end, ref.nb, ref.nt, ref.edge, ref.step
    v.assume(lo < hi)
    v.assume(nt >= 3)
    fz = v.freeze(Y, M)

    ghost = {}
    C = z3.Function('number of events', I, I, I)
    CNT = lambda i, j: mknum(C(zi(i), zi(j)))
    v.assume(forall2(nt, nb, lambda i, j: CNT(i, j) == ref.count(i, j)))

    def inv(st):
        t, c = st['tloc'], st['comp_length']
        p = lambda j: t.at(j, 0)
        ghost['tloc'] = t
        r = [('a chosen step is a time step', forall(st.k, lambda j: land(p(j) >= 0, p(j) <= nt - 1))),
             ('the duration is the chosen step', forall(st.k, lambda j: c.at(j, 0) == step(p(j))))]
        cnt = CNT
        keep = (lambda j, q: ite(j >= 1, smax(q, p(j - 1)), q)) if iloc else (lambda j, q: q)
        r.append(('the last departing step', forall(st.k, lambda j: implies(ref.some(j, cnt), p(j) == keep(j, ref.last(j, cnt))))))
        r.append(('the step of the preceding bin when none departs', forall(st.k, lambda j: implies(
            not_(ref.some(j, cnt)), p(j) == p(j - 1)), lo=1)))
        if iloc:
            r.append(('the chosen steps increase', forall(st.k, lambda j: p(j) >= p(j - 1), lo=1)))
        return r
    v.invariant(CO + ':stepp_analysis#3', inv)
    v.declare(CO + ':stepp_analysis#1', 'number_obs', lambda t: SArr((nt, nb), lambda ix: ite(
        mknum(ix[0]) < t, toreal(CNT(mknum(ix[0]), mknum(ix[1]))), 0), 'f'))
    r = m.stepp_analysis(Y, M, dm, dt, ttol, iloc)
    v.ensure('number of bins', nb == ceil((hi + dm - lo) / dm) - 1)
    v.ensure('number of time steps', nt == ceil((end - ref.start + 2 - dt) / dt))
    v.shape_is('completeness table', r, nb, 2)
    v.unchanged('inputs', fz)
    v.ensure('the bins cover the largest magnitude', edge(nb) >= hi)
    v.ensure_all('magnitude is the lower edge of the bin', nb, lambda j: r.at(j, 1) == edge(j))
    chosen = lambda j: ghost['tloc'].at(j, 0)
    dur = lambda j: end - r.at(j, 0)
    v.ensure_all('one of the time steps', nb, lambda j: land(chosen(j) >= 0, chosen(j) < nt, dur(j) == step(chosen(j))))
    later = (lambda j, q: ite(j >= 1, smax(q, dur(j - 1)), q)) if iloc else (lambda j, q: q)
    v.ensure_all('last departing step', nb, lambda j: implies(
        ref.some(j, CNT), dur(j) == later(j, toreal(step(ref.last(j, CNT))))))
    v.ensure_all('duration of the preceding bin when no step departs', nb, lambda j: implies(
        land(j >= 1, not_(ref.some(j, CNT))), dur(j) == dur(j - 1)))
    if iloc:
        v.ensure_all('years never increase with the magnitude', nb, lambda j: implies(j >= 1, dur(j) >= dur(j - 1)))


UNITS = [Unit('C14', 'stepp_analysis with the increment lock', lambda v: run(v, True), [CO + ':stepp_analysis'], budget=60),
         Unit('C14', 'stepp_analysis without the increment lock', lambda v: run(v, False), [CO + ':stepp_analysis'], budget=60)]
