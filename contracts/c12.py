"""C12: calendar conversions."""
from .common import *

BEFORE = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def pick(tab, m):
    """tab[m - 1] for the integer-valued month m"""
    r = num(tab[-1])
    for q in range(len(tab) - 1, 0, -1):
        r = ite(num(m) == q, num(tab[q - 1]), r)
    return r


def dates(v, n, names='yMd'):
    y, mo, d = (v.array(q, n, dt='i') for q in ('year', 'month', 'day'))
    v.assume_all(n, lambda i: land(mo.at(i) >= 1, mo.at(i) <= 12, d.at(i) >= 1, d.at(i) <= 31))
    return y.astype(float), mo.astype(float), d.astype(float)


def decimal(v):
    v.world()
    m = v.load(CU)
    n = v.int('n', 1)
    y, mo, d = dates(v, n)
    fz = v.freeze(y, mo, d)
    r = m.decimal_year(y, mo, d)
    v.shape_is('decimal years', r, n)
    v.unchanged('date vectors', fz)
    doy = lambda i: pick(BEFORE, mo.at(i)) + d.at(i) - 1
    v.ensure_all('day of the year / 365', n, lambda i: r.at(i) == y.at(i) + doy(i) / 365)


def decimal_order(v):
    v.world()
    m = v.load(CU)
    y, mo, d = dates(v, 2)
    for i in range(2):
        v.assume(d.at(i) <= pick(DAYS, mo.at(i)))
    r = m.decimal_year(y, mo, d)
    a, b = r.at(0), r.at(1)
    v.ensure('stays within its year', land(a >= y.at(0), a < y.at(0) + 1))
    for q in range(1, 13):
        v.ensure('strictly increasing in the date (month %d)' % q, implies(
            land(mo.at(0) == q, y.at(0) == y.at(1), lor(mo.at(0) < mo.at(1), land(mo.at(0) == mo.at(1), d.at(0) < d.at(1)))), a < b))


def fdiv(a, b):
    return floor(toreal(num(a)) / b)


def jdn(y, mo, d):
    """reference: Julian day number of a Gregorian date (Fliegel and Van Flandern's construction: years
    counted from March), exact integer arithmetic"""
    a = fdiv(14 - mo, 12)
    yy = y + 4800 - a
    mm = mo + 12 * a - 3
    return d + fdiv(153 * mm + 2, 5) + 365 * yy + fdiv(yy, 4) - fdiv(yy, 100) + fdiv(yy, 400) - 32045


def julian(v):
    v.world()
    m = v.load(CU)
    d = v.int('day', 1, 31)
    h, mi, s = v.real('hour', 0), v.real('minute', 0), v.real('second', 0)
    # every year is 400 a + 100 b + 4 c + e with 0 <= b < 4, 0 <= c < 25, 0 <= e < 4
    a, c = v.int('a'), v.int('c', 0, 24)
    for mo in range(1, 13):
        for b in range(4):
            for e in range(4):
                y = 400 * a + 100 * b + 4 * c + e
                r = m.greg2julian(toreal(y), F(mo), toreal(d), h, mi, s)
                v.ensure('astronomical Julian date, month %d, b = %d, e = %d' % (mo, b, e),
                         r == toreal(jdn(y, mo, d)) - F('0.5') + h / 24 + mi / 1440 + s / 86400)


def julian_vector(v):
    v.world()
    m = v.load(CU)
    n = v.int('n', 1)
    A = [v.array(q, n) for q in ('y', 'mo', 'd', 'h', 'mi', 's')]
    fz = v.freeze(*A)
    r = m.greg2julian(*A)
    v.shape_is('Julian dates', r, n)
    v.unchanged('date vectors', fz)
    v.ensure_all('elementwise', n, lambda i: r.at(i) == m.greg2julian(*[a.at(i) for a in A]))


def julian_days(v):
    """the reference itself counts days"""
    v.world()
    d = v.int('day', 1, 31)
    a, c, b = v.int('a'), v.int('c', 0, 24), v.int('b', 0, 3)
    for e in range(4):
        julian_next(v, 400 * a + 100 * b + 4 * c + e, d, e)
    v.ensure('reference: 1 January 2000', jdn(num(2000), 1, num(1)) == 2451545)


def julian_next(v, y, d, e):
    leap = land(zmod(y, 4) == 0, lor(not_(zmod(y, 100) == 0), zmod(y, 400) == 0))
    for mo in range(1, 13):
        last = num(DAYS[mo - 1]) if mo != 2 else ite(leap, num(29), num(28))
        v.ensure('reference: next day, month %d, e = %d' % (mo, e), jdn(y, mo, d + 1) == jdn(y, mo, d) + 1)
        ny, nm = (y + 1, 1) if mo == 12 else (y, mo + 1)
        v.ensure('reference: first day of the next month, month %d, e = %d' % (mo, e), jdn(ny, nm, num(1)) == jdn(y, mo, last) + 1)


def zmod(a, b):
    return arr.modulo(num(a), num(b))


UNITS = [Unit('C12', 'decimal_year', decimal, [CU + ':decimal_year']),
         Unit('C12', 'decimal_year order', decimal_order, [CU + ':decimal_year']),
         Unit('C12', 'greg2julian', julian, [CU + ':greg2julian'], budget=60),
         Unit('C12', 'greg2julian on vectors', julian_vector, [CU + ':greg2julian']),
         Unit('C12', 'Julian day reference', julian_days, [])]
