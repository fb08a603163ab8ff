"""C15: recurrence table and b-value."""
from .common import *


def table(v):
    v.world()
    m = v.load(RE)
    n = v.int('n', 1)
    mag, year, d = v.array('mag', n), v.array('year', n), v.real('dmag')
    v.assume(d > 0)
    fz = v.freeze(mag, year)
    t = m.recurrence_table(mag, d, year)
    v.unchanged('inputs', fz)
    lo = mkred('min', 0, n, lambda e: floor(10 * mag.at(e)) / 10)
    hi = mkred('max', 0, n, lambda e: ceil(10 * mag.at(e)) / 10)
    L = ceil((hi - lo) / d) + 1
    v.shape_is('table', t, L, 5)
    edge = lambda i: lo + d * num(i)
    obs = lambda i: mkred('count', 0, n, lambda e: 1, lambda e: land(edge(i) <= mag.at(e), mag.at(e) < edge(num(i) + 1)))
    span = mkred('max', 0, n, lambda e: year.at(e)) - mkred('min', 0, n, lambda e: year.at(e)) + 1
    v.ensure_all('bin centres', L, lambda i: t.at(i, 0) == edge(i) + d / 2)
    v.ensure_all('number of events in the bin', L, lambda i: t.at(i, 1) == obs(i))
    cum = lambda i: mkred('sum', i, L, obs)
    v.ensure_all('number of events in this and the higher bins', L, lambda i: t.at(i, 2) == cum(i))
    v.ensure_all('annual number', L, lambda i: t.at(i, 3) == obs(i) / span)
    v.ensure_all('annual cumulative number', L, lambda i: t.at(i, 4) == cum(i) / span)
    # so every event lies in exactly one bin
    bin_ = lambda e: floor((mag.at(e) - lo) / d)
    v.ensure_all('every event lies in a bin', n, lambda e: land(
        0 <= bin_(e), bin_(e) < L, edge(bin_(e)) <= mag.at(e), mag.at(e) < edge(bin_(e) + 1)))
    v.ensure_all('counts are not negative', L, lambda i: obs(i) >= 0)
    v.ensure_all('a cumulative number is the next one and the count', L - 1, lambda i: cum(i) == obs(i) + cum(num(i) + 1))
    v.ensure_all('cumulative numbers never increase', L - 1, lambda i: t.at(num(i) + 1, 2) <= t.at(i, 2))


def aki(v):
    v.world()
    m = v.load(RE)
    n = v.int('n', 1)
    mval, nobs, d, mc = v.array('mval', n), v.array('nobs', n), v.real('dmag'), v.real('m_c')
    v.assume(d > 0)
    x = z3.Int('x')
    v.assume(mkbool(z3.Exists([x], z3.And(0 <= x, x < zi(n), zb(mval.at(x) >= mc)))))
    fz = v.freeze(mval, nobs)
    b, sb = m.b_max_likelihood(mval, nobs, d, mc)
    v.unchanged('inputs', fz)
    g = lambda i: zb(mval.at(i) >= mc)
    s = lambda f: mkred('sum', 0, n, f, g)
    N = s(lambda i: nobs.at(i))
    ave = s(lambda i: mval.at(i) * nobs.at(i)) / N
    mn = mkred('min', 0, n, lambda i: mval.at(i), g)
    v.ensure('Aki b-value with the correction for the bin width', num(b) == log10(exp(num(1))) / (ave - mn + d / 2))
    v.ensure("Bender's standard error", num(sb) == F('2.3') * num(b) ** 2 * sqrt(
        s(lambda i: nobs.at(i) * (mval.at(i) - ave) ** 2) / (N * (N - 1))))


UNITS = [Unit('C15', 'recurrence_table', table, [RE + ':recurrence_table']),
         Unit('C15', 'b_max_likelihood', aki, [RE + ':b_max_likelihood'])]
