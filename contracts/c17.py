"""C17: preparation of the Weichert analysis."""
from .common import *


def prepare(v):
    v.world()
    m = v.load(RE)
    n, nc = v.int('n', 1), v.int('nc', 1)
    year, fmag = v.array('year', n), v.array('fmag', n)
    ctime, cmag = v.array('ctime', nc), v.array('cmag', nc)
    dm, dt = v.real('d_m'), v.real('d_t')
    v.assume(land(dm > 0, dt > 0))
    fz = v.freeze(year, fmag, ctime, cmag)
    cent, tper, nobs = m.weichert_prep(year, fmag, ctime, cmag, dm, dt)
    v.unchanged('inputs', fz)
    mg = lambda e: npm.around(fmag, 1).at(e)
    y0, y1 = mkred('min', 0, n, lambda e: year.at(e)), mkred('max', 0, n, lambda e: year.at(e))
    m0, m1 = mkred('min', 0, n, mg), mkred('max', 0, n, mg)
    T = ceil((y1 - y0) / dt + F('1.5')) - 1
    M = ceil((m1 - m0) / dm + F('1.5')) - 1
    te = lambda a: y0 + dt * num(a)
    me = lambda b: m0 + dm * num(b)
    for name, a in (('centres', cent), ('periods', tper), ('counts', nobs)):
        v.shape_is(name, a, M)
    v.ensure_all('bin centres', M, lambda b: cent.at(b) == me(b) + dm / 2)
    last = lambda b: mkred('max', 0, nc, lambda c: num(c), lambda c: zb(cmag.at(c) - me(b) < F('1E-3')))
    some = lambda b: exists(nc, lambda c: cmag.at(c) - me(b) < F('1E-3'))
    v.ensure_all('observation period', M, lambda b: tper.at(b) == ite(
        some(b), y1 - ctime.at(last(b)) + 1, y1 - ctime.at(nc - 1) + 1))
    hidden = lambda a, b: exists(nc, lambda c: land(te(a) < ctime.at(c), me(b) < cmag.at(c)))
    cell = lambda a, b: mkred('count', 0, n, lambda e: 1, lambda e: land(
        te(a) <= year.at(e), year.at(e) < te(num(a) + 1), me(b) <= mg(e), mg(e) < me(num(b) + 1)))
    v.ensure_all('events of the complete cells', M, lambda b: nobs.at(b) == mkred(
        'sum', 0, T, lambda a: ite(hidden(a, b), num(0), cell(a, b))))
    ia = lambda e: floor((year.at(e) - y0) / dt)
    ib = lambda e: floor((mg(e) - m0) / dm)
    v.ensure_all('every event lies in a cell', n, lambda e: land(
        0 <= ia(e), ia(e) < T, 0 <= ib(e), ib(e) < M, te(ia(e)) <= year.at(e), year.at(e) < te(ia(e) + 1),
        me(ib(e)) <= mg(e), mg(e) < me(ib(e) + 1)))


def lengths(v):
    v.world()
    m = v.load(RE)
    n, nt, nm = v.int('n', 1), v.int('nt', 0), v.int('nm', 0)
    v.assume(not_(nt == nm))
    year, fmag = v.array('year', n), v.array('fmag', n)
    ctime, cmag = v.array('ctime', nt), v.array('cmag', nm)
    dm, dt = v.real('d_m'), v.real('d_t')
    v.assume(land(dm > 0, dt > 0))
    fz = v.freeze(year, fmag, ctime, cmag)
    try:
        m.weichert_prep(year, fmag, ctime, cmag, dm, dt)
        v.ensure('columns of different length are rejected', False)
    except Unsupported:
        raise
    except Exception:
        v.ensure('columns of different length are rejected', True)
    v.unchanged('inputs', fz)


UNITS = [Unit('C17', 'weichert_prep', prepare, [RE + ':weichert_prep']),
         Unit('C17', 'weichert_prep, columns of different length', lengths, [RE + ':weichert_prep'])]
