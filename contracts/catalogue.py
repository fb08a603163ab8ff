"""The catalogue file: cells, standard columns, acceptable values (C01 to C04)."""
from .common import *

EC = 'mtoolkit.eqcatalog'
COLUMNS = ['eventID', 'Agency', 'Identifier', 'year', 'month', 'day', 'hour', 'minute', 'second', 'timeError', 'longitude',
           'latitude', 'SemiMajor90', 'SemiMinor90', 'ErrorStrike', 'depth', 'depthError', 'Mw', 'sigmaMw', 'Ms', 'sigmaMs',
           'mb', 'sigmamb', 'ML', 'sigmaML']
INTS = ['eventID', 'Identifier', 'year', 'month', 'day', 'hour', 'minute']
COMPULSORY = INTS + ['longitude', 'latitude', 'depth', 'Mw']
ELLIPSE = ['SemiMajor90', 'SemiMinor90', 'ErrorStrike']
NONNEG = ['depthError', 'sigmaMs', 'sigmamb', 'sigmaML', 'sigmaMw', 'SemiMajor90', 'SemiMinor90']
NOW = mknum(lib.NOWYEAR)


class Table(object):
    """the data lines of a file: n rows of 25 cells"""
    def __init__(self, v, name, cell=None):
        self.n = v.int('lines of ' + name, 0)
        f = z3.Function('cell of ' + name, I, I, ops.S)
        self.cell = cell or (lambda i, col: ops.SStr(f(zi(i), z3.IntVal(COLUMNS.index(col)))))

    def t(self, i, col):
        return self.cell(i, col).t

    # ------ what the text of a cell is worth
    def ok(self, i, col):
        """the cell converts"""
        return mkbool((lib.INTOK if col in INTS else lib.FLOATOK)(self.t(i, col)))

    def val(self, i, col):
        return mknum((lib.INTOF if col in INTS else lib.FLOATOF)(self.t(i, col)))

    def good(self, i, col):
        """a compulsory value is valid"""
        x = self.val(i, col)
        r = {'eventID': lambda: x > 0, 'Identifier': lambda: x > 0, 'depth': lambda: x > 0, 'Mw': lambda: True,
             'year': lambda: land(x >= -10000, x <= NOW), 'month': lambda: land(x >= 1, x <= 12),
             'day': lambda: land(x >= 1, x <= ite(self.val(i, 'month') == 2, num(29), num(31))),
             'hour': lambda: land(x >= 0, x <= 23), 'minute': lambda: land(x >= 0, x <= 59),
             'longitude': lambda: land(x >= -180, x <= 180), 'latitude': lambda: land(x >= -90, x <= 90)}[col]()
        return land(self.ok(i, col), r)

    def valid(self, i):
        """all compulsory values of line i are valid"""
        return land(*[self.good(i, c) for c in COMPULSORY])

    def kept(self, i, col):
        """an optional value is acceptable"""
        x = self.val(i, col)
        if col in ELLIPSE:
            a, b, s = [self.val(i, c) for c in ELLIPSE]
            return land(*([self.ok(i, c) for c in ELLIPSE] + [a >= 0, b >= 0, s >= 0, s <= 360, b <= a]))
        if col == 'second':
            return land(self.ok(i, col), x >= 0, x < 60)
        if col in NONNEG:
            return land(self.ok(i, col), x >= 0)
        return self.ok(i, col)


class Header(object):
    """the first line: so many parts separated by commas"""
    def __init__(self, parts):
        self.parts = parts

    def split(self, sep=None, most=-1):
        if sep != ',' or most != -1:
            raise Unsupported('split')
        return list(self.parts)


class File(object):
    """an open catalogue file"""
    def __init__(self, header, table):
        self.header, self.table, self.at = header, table, 0

    def readline(self, *a):
        if self.at or a:
            raise Unsupported('readline')
        self.at = 1
        return Header(self.header)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def dict_reader(f, fieldnames=None, restkey=None, restval=None, dialect='excel', *a, **kw):
    """csv.DictReader on the data lines"""
    if a or kw or dialect != 'excel' or not isinstance(f, File) or f.at != 1:
        raise Unsupported('DictReader')
    f.at = 2
    names = ops.seq_list(fieldnames)
    if any(not isinstance(x, str) for x in names) or len(names) != 25 or len(set(names)) != 25:
        raise Unsupported('columns given to DictReader')
    t = f.table

    def line(i):
        d = dict((x, t.cell(i, c)) for x, c in zip(names, COLUMNS))
        rt.RT.fresh.append(d)
        return d
    return rt.GenList([Seg(t.n, line)])


def setup(v):
    v.world()
    lib.HOOKS['csv.DictReader'] = dict_reader
    return v.load(EC)


def is_(x, y):
    """equality of two cell values, numbers or texts"""
    x, y = [q if isinstance(q, sym.Choice) else q for q in (x, y)]
    if isinstance(x, sym.Choice):
        return ite(x.c, is_(x.a, y), is_(x.b, y))
    if isinstance(y, sym.Choice):
        return ite(y.c, is_(x, y.a), is_(x, y.b))
    if sym.isnum(x) != sym.isnum(y):
        return False
    return ops.truth(ops.eq(x, y))
