"""Catalogue files: cells, and what reading them must give."""
import csv
import datetime
import io
import math
from .base import *

COLUMNS = ['eventID', 'Agency', 'Identifier', 'year', 'month', 'day', 'hour', 'minute', 'second', 'timeError', 'longitude',
           'latitude', 'SemiMajor90', 'SemiMinor90', 'ErrorStrike', 'depth', 'depthError', 'Mw', 'sigmaMw', 'Ms', 'sigmaMs',
           'mb', 'sigmamb', 'ML', 'sigmaML']
INTS = ['eventID', 'Identifier', 'year', 'month', 'day', 'hour', 'minute']
COMPULSORY = INTS + ['longitude', 'latitude', 'depth', 'Mw']
OPTIONAL = [c for c in COLUMNS if c not in COMPULSORY and c != 'Agency']
ELLIPSE = ['SemiMajor90', 'SemiMinor90', 'ErrorStrike']
NONNEG = ['depthError', 'sigmaMs', 'sigmamb', 'sigmaML']
YEAR = datetime.datetime.now().year
RANGE = {'year': (-10000, YEAR), 'month': (1, 12), 'hour': (0, 23), 'minute': (0, 59), 'longitude': (-180, 180), 'latitude': (-90, 90)}
JUNK = ['', '', ' ', 'abc', 'n/a', '-', '1,5', '0x1', '--1', '1 2', '12-3']


def num(g, x):
    """text of a number"""
    if isinstance(x, int):
        return g.pick(str(x), str(x), str(x), ' %d' % x, '%d ' % x, '%+d' % x)
    return g.pick(repr(x), repr(x), '%.2f' % x, ' %r' % x, '%e' % x, '%d' % int(x))


def compulsory(g, col, month=None):
    """a valid value (most often)"""
    if col in ('eventID', 'Identifier'):
        return g.pick(1, g.int(1, 99999))
    if col in RANGE:
        lo, hi = RANGE[col]
        if col in ('longitude', 'latitude'):
            return g.pick(float(lo), float(hi), g.real(lo, hi), g.real(lo, hi, 3), 0.0)
        return g.pick(lo, hi, g.int(lo, hi), g.int(lo, hi))
    if col == 'day':
        last = 29 if month == 2 else 31
        return g.pick(1, last, g.int(1, last), g.int(1, 28))
    if col == 'depth':
        return g.pick(1e-3, g.real(.1, 700, 1), 10.0)
    return g.pick(g.real(-2, 10, 2), 0.0, g.real(3, 8), -0.5)


def wrong(g, col, month=None):
    """the text of an invalid compulsory value"""
    if g.chance(.45):
        return g.pick(*JUNK)
    if col in INTS and g.chance(.3):
        return g.pick('1.0', '2.5', '1e1')
    if col in ('eventID', 'Identifier'):
        return str(g.pick(0, -1, -g.int(1, 999)))
    if col in RANGE:
        lo, hi = RANGE[col]
        if col in ('longitude', 'latitude'):
            return repr(g.pick(lo - .001, hi + .001, hi + 180., lo - 90., hi + 1e-9))
        return str(g.pick(lo - 1, hi + 1, hi + g.int(1, 100), lo - g.int(1, 100)))
    if col == 'day':
        return str(g.pick(0, -1, 30 if month == 2 else 32, 99))
    if col == 'depth':
        return g.pick('0', '0.0', '-1', '-0.5')
    return g.pick(*JUNK)


def optional(g, col):
    if g.chance(.25):
        return g.pick(*JUNK)
    if col == 'second':
        return num(g, g.pick(0.0, 59.999, 60.0, g.real(0, 60, 2), -0.01, 61.5, 0))
    if col == 'ErrorStrike':
        return num(g, g.pick(0.0, 360.0, 360.001, g.real(0, 360, 1), g.real(0, 360, 1), -0.1))
    if col in ('SemiMajor90', 'SemiMinor90'):
        return num(g, g.pick(0.0, g.real(0, 30, 1), g.real(0, 30, 1), g.real(0, 30), 5.0, 5.0, -1.0))
    if col in ('timeError', 'Ms', 'mb', 'ML'):
        return num(g, g.pick(0.0, g.real(-3, 10, 2), -1.5, g.real(0, 9)))
    return num(g, g.pick(0.0, 0.1, g.real(0, 2, 2), g.real(0, 2), -0.1, -1))


def text(g):
    return g.pick('', 'AAA', g.word(), 'a b', ' x ', 'A,B', '12', '1e5', 'quo"te', "it's", '0')


def row(g, pwrong=0.0):
    """the texts of a line"""
    out, month = {}, None
    for c in COLUMNS:
        if c == 'Agency':
            out[c] = text(g)
        elif c in COMPULSORY:
            x = compulsory(g, c, month)
            if c == 'month':
                month = g.pick(2, x)
                x = month
            out[c] = num(g, x) if c in INTS else g.pick(repr(x), repr(x), ' %r' % x, '%.9e' % x)
        else:
            out[c] = optional(g, c)
    if g.chance(pwrong):
        for c in [g.pick(*COMPULSORY) for _ in range(g.pick(1, 1, 1, 2, 3))]:
            out[c] = wrong(g, c, month)
    return [out[c] for c in COLUMNS]


def rows(g, n, pwrong=0.0):
    """lines, some of which repeat an earlier one or much of it"""
    out = []
    for _ in range(n):
        r = row(g, pwrong)
        if out and g.chance(.2):
            q = g.pick(out[-1], out[g.int(0, len(out) - 1)])
            if g.chance(.5):
                r = list(q)
            else:
                one = COLUMNS.index(g.pick(*[c for c in COLUMNS if c not in ('month', 'day')]))
                r = q[:one] + [r[one]] + q[one + 1:]
        out.append(r)
    return out


def number(col, t):
    try:
        x = int(t) if col in INTS else float(t)
    except ValueError:
        return None
    if '_' in t or math.isinf(x) or math.isnan(x):
        raise Skip('unusual number')
    return x


def expected(cells):
    """(invalid compulsory columns, event)"""
    t = dict(zip(COLUMNS, cells))
    x = dict((c, number(c, t[c])) for c in COLUMNS if c != 'Agency')
    bads = set(c for c in COMPULSORY if x[c] is None)
    for c in ('eventID', 'Identifier', 'depth'):
        if x[c] is not None and not x[c] > 0:
            bads.add(c)
    for c in RANGE:
        if x[c] is not None and not RANGE[c][0] <= x[c] <= RANGE[c][1]:
            bads.add(c)
    if x['day'] is not None:
        if not 1 <= x['day'] <= 31:
            bads.add('day')
        elif x['day'] > 29 and x['month'] is None:
            bads.add('day?')
        elif x['day'] > 29 and x['month'] == 2:
            bads.add('day')
    e = dict(x)
    e['Agency'] = t['Agency']
    ok = lambda c, f: x[c] is not None and f(x[c])
    if not ok('second', lambda s: 0 <= s < 60):
        e['second'] = ''
    for c in NONNEG:
        if not ok(c, lambda s: s >= 0):
            e[c] = ''
    if not ok('sigmaMw', lambda s: s >= 0):
        e['sigmaMw'] = 0.0
    a, b, s = ELLIPSE
    if not (ok(a, lambda v: v >= 0) and ok(b, lambda v: v >= 0) and ok(s, lambda v: 0 <= v <= 360) and x[b] <= x[a]):
        e[a] = e[b] = e[s] = ''
    for c in ('timeError', 'Ms', 'mb', 'ML'):
        if x[c] is None:
            e[c] = ''
    return bads, e


def content(rows, header=None):
    s = io.StringIO()
    s.write((','.join(COLUMNS) if header is None else header) + '\n')
    csv.writer(s, lineterminator='\n').writerows(rows)
    return s.getvalue()


def source(rows, kind, header=None):
    """an open catalogue"""
    c = content(rows, header)
    if kind == 'text':
        return io.StringIO(c)
    name = 'catalogue%d.csv' % len(os.listdir('.'))
    with open(name, 'w') as f:
        f.write(c)
    return open(name)


def same_event(e, want, what, cols=COLUMNS):
    need(isinstance(e, dict) and sorted(e) == sorted(COLUMNS), '%s: columns %s', what, short(e))
    for c in cols:
        same = e[c] == want[c] and isinstance(e[c], str) == isinstance(want[c], str)
        if c in INTS:
            same = same and e[c] == int(e[c])
        need(same, '%s: %s is %r instead of %r', what, c, e[c], want[c])


def clear():
    for f in os.listdir('.'):
        if os.path.isfile(f):
            os.remove(f)
