"""C16: time varying b-value."""
from .common import *

POS = z3.Function('POS', I, I)
BV = z3.Function('BVALUE', I, Rl)
SB = z3.Function('SIGMAB', I, Rl)


class Table(object):
    """recurrence table of the period j: what b_max_likelihood may read of it"""
    def __init__(self, j):
        self.j = j

    def __getitem__(self, ix):
        if not (isinstance(ix, tuple) and len(ix) == 2 and ix[0] == slice(None) and isinstance(ix[1], int)):
            raise Unsupported('recurrence table used in another way')
        return Column(self, ix[1])


class Column(object):
    def __init__(self, table, i):
        self.table, self.i = table, i


def maxlike(ref_given):
    def run(v):
        n, ne = v.int('nc', 1), v.int('n', 1)
        ctime, cmag = v.array('ctime', n), v.array('cmag', n)
        year, mag = v.array('year', ne), v.array('mag', ne)
        d, ref = v.real('dmag'), v.real('ref') if ref_given else num(0)
        v.assume(d > 0)
        tol = F('1E-5')
        pos = lambda j: mknum(POS(zi(num(j))))
        near = lambda p, i: absv(ctime.at(i) - ctime.at(p)) < tol
        rows = lambda p: mkred('count', 0, n, lambda i: 1, lambda i: zb(near(p, i)))
        mc = lambda p: mkred('min', 0, n, lambda i: cmag.at(i), lambda i: zb(near(p, i)))
        used = lambda p, e: land(year.at(e) >= ctime.at(p), mag.at(e) >= mc(p) - tol)
        count = lambda p: mkred('count', 0, ne, lambda e: 1, lambda e: zb(used(p, e)))
        # the first rows of the groups
        x = z3.Int('x')
        RT.assume(POS(0) == 0)
        RT.assume(z3.ForAll([x], z3.Implies(z3.And(x >= 0, POS(x) < zi(n)), POS(x + 1) == zi(pos(x) + rows(pos(x))))))
        # every period has events
        v.assume_all(n, lambda p: count(p) >= 1)
        v.ensure_all('a row belongs to its own group', n, lambda p: rows(p) >= 1)

        def period():
            if not RT.loop_index:
                raise Unsupported('not in the loop over the periods')
            return mknum(RT.loop_index[-1])

        def selected(a, name, got, p):
            want = a[SArr((ne,), lambda ix: used(p, mknum(ix[0])), 'b')]
            if not isinstance(got, SArr):
                raise Unsupported('not an array')
            v.ensure('number of ' + name, num(got.shape[0]) == num(want.shape[0]))
            v.ensure_all(name, want.shape[0], lambda i: got.at(i) == want.at(i))

        def table(m, dm, ye):
            j = period()
            selected(mag, 'magnitudes of the period', m, pos(j))
            selected(year, 'years of the period', ye, pos(j))
            v.ensure('bin width of the table', num(dm) == d)
            return Table(j)

        def blike(mval, nobs, dmag=F('0.1'), m_c=F('0')):
            j = period()
            if not (isinstance(mval, Column) and isinstance(nobs, Column)):
                raise Unsupported('not the columns of a recurrence table')
            v.ensure('columns of the table of the period', land(
                mval.i == 0, nobs.i == 1, mval.table.j == j, nobs.table.j == j))
            v.ensure('bin width of the estimate', num(dmag) == d)
            v.ensure('completeness magnitude', num(m_c) == mc(pos(j)))
            return mknum(BV(zi(j))), mknum(SB(zi(j)))
        v.world({RE + ':recurrence_table': table, RE + ':b_max_likelihood': blike})
        m = v.load(RE)
        N = lambda j: count(pos(j))
        b, sb = (lambda j: mknum(BV(zi(num(j))))), (lambda j: mknum(SB(zi(num(j)))))

        def years(j):
            g = lambda e: zb(used(pos(j), e))
            return mkred('max', 0, ne, lambda e: year.at(e), g) - mkred('min', 0, ne, lambda e: year.at(e), g) + 1

        def rate(j):
            a = log10(N(j) / years(j)) + b(j) * mc(pos(j))
            sa = absv(log10(N(j) / years(j)) + (b(j) + sb(j)) * ref - a)
            r = p10(a - b(j) * ref)
            return r, p10(a + sa - b(j) * ref - log10(r))
        row = lambda j, c: ite(c == 0, b(j), ite(c == 1, sb(j), ite(c == 2, rate(j)[0], rate(j)[1])))
        v.invariant('while', lambda st: [('position', num(st['ival']) == pos(st.k)), ('progress', num(st['ival']) >= st.k)])
        v.declare('while', 'gr_pars', lambda t: SArr((t, 4), lambda ix: row(mknum(ix[0]), mknum(ix[1])), 'f'))
        v.declare('while', 'neq', lambda t: SArr((t,), lambda ix: N(mknum(ix[0])), 'i'))
        fz = v.freeze(ctime, cmag, year, mag)
        r = m.b_maxlike_time(year, mag, ctime, cmag, d, ref) if ref_given else m.b_maxlike_time(year, mag, ctime, cmag, d)
        v.unchanged('inputs', fz)
        if len(v.whiles) != 1:
            raise Unsupported('not one loop over the periods')
        K = v.whiles[0][1]
        v.ensure('all rows are used', land(K >= 1, pos(K) >= n, forall(K, lambda j: pos(j) < n)))
        total = mkred('sum', 0, K, N)
        for i, what in enumerate(('b-value', 'error of the b-value', 'rate', 'error of the rate')):
            v.ensure(what, num(r[i]) == mkred('sum', 0, K, lambda j: N(j) / total * row(j, num(i))))
    return run


def analysis(algorithm):
    def run(v):
        n, nc = v.int('n', 1), v.int('nc', 1)
        year, mag, ct = v.array('year', n), v.array('mag', n), v.array('completeness', nc, 2)
        mw, tw, ref = v.real('magnitude window'), v.real('time window'), v.real('reference magnitude')
        calls = []
        res = tuple(v.real('result%d' % i) for i in range(4))
        prep = tuple(v.array('prepared%d' % i, v.int('bins', 2)) for i in range(3))

        def columns(name, args):
            y, m, cy, cm, w = args
            for what, a, b, k in (('years', y, lambda i: year.at(i), n), ('magnitudes', m, lambda i: mag.at(i), n),
                                  ('completeness years', cy, lambda i: ct.at(i, num(0)), nc),
                                  ('completeness magnitudes', cm, lambda i: ct.at(i, num(1)), nc)):
                v.shape_is('%s given to %s' % (what, name), a, k)
                v.ensure_all('%s given to %s' % (what, name), k, lambda i: a.at(i) == b(i))
            v.ensure('magnitude bin width given to ' + name, num(w) == mw)

        def weichert_prep(year, fmag, ctime, cmag, d_m, d_t):
            calls.append('prep')
            columns('weichert_prep', (year, fmag, ctime, cmag, d_m))
            v.ensure('time bin width given to weichert_prep', num(d_t) == tw)
            return prep

        def weichert(tper, fmag, nobs, mrate=F('0'), beta=F('1.5'), itstab=F('1E-5')):
            calls.append('weichert')
            v.ensure('what weichert_prep returned goes to weichert', fmag is prep[0] and tper is prep[1] and nobs is prep[2])
            v.ensure('reference magnitude given to weichert', num(mrate) == ref)
            return res

        def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=F('0')):
            calls.append('maxlike')
            columns('b_maxlike_time', (year, mag, ctime, cmag, dmag))
            v.ensure('reference magnitude given to b_maxlike_time', num(ref_mag) == ref)
            return res
        v.world({RE + ':weichert_prep': weichert_prep, RE + ':weichert': weichert, RE + ':b_maxlike_time': b_maxlike_time})
        m = v.load(RE)
        if algorithm is None:
            algo = v.str('algorithm')
            v.assume(not_(ops.truth(ops.eq(algo, 'Weichert'))))
        else:
            algo = algorithm
        fz = v.freeze(year, mag, ct)
        r = m.recurrence_analysis(year, mag, ct, mw, algo, ref, tw)
        v.unchanged('inputs', fz)
        v.ensure('method', calls == (['prep', 'weichert'] if algorithm == 'Weichert' else ['maxlike']))
        v.ensure('four results', len(r) == 4)
        for i in range(4):
            v.ensure('result %d' % i, num(r[i]) == res[i])
    return run


UNITS = [Unit('C16', 'b_maxlike_time' + ('' if g else ' (default reference magnitude)'), maxlike(g), [RE + ':b_maxlike_time'])
         for g in (True, False)]
UNITS += [Unit('C16', 'recurrence_analysis, ' + (a or 'another method'), analysis(a), [RE + ':recurrence_analysis'])
          for a in ('Weichert', 'MLE', None)]
