"""C03: header, order and columns of the catalogue."""
from .catalogue import *
from .c27 import JOBS, context


def filled(v, name, r, t):
    """one event per line, in order, every column from its own cell"""
    v.ensure('%s: one event per data line' % name, ops.len_(r) == t.n)
    e = lambda i: ops.seq_index(r, i)
    v.ensure_all('%s: the columns of every event' % name, t.n, lambda i: len(e(i)) == 25 and sorted(e(i)) == sorted(COLUMNS))
    for col in COLUMNS:
        if col == 'Agency':
            f = lambda i: is_(ops.getitem(e(i), col), t.cell(i, col))
        elif col in COMPULSORY:
            f = lambda i: is_(ops.getitem(e(i), col), t.val(i, col))
        else:
            blank = num(0) if col == 'sigmaMw' else ''
            f = lambda i: lor(is_(ops.getitem(e(i), col), blank), land(t.ok(i, col), is_(ops.getitem(e(i), col), t.val(i, col))))
        v.ensure_all('%s: %s is filled from its own cell' % (name, col), t.n, f)


def header(v):
    m = setup(v)
    t = Table(v, 'the file')
    k = v.int('parts of the first line', 1)
    f = z3.Function('part of the first line', I, ops.S)
    parts = [Seg(k, lambda i: ops.SStr(f(i)))]
    standard = land(k == 25, *[ops.truth(ops.eq(ops.SStr(f(z3.IntVal(i))).strip(), c)) for i, c in enumerate(COLUMNS)])
    try:
        m.EqEntryReader(File(parts, t))
    except m.MalformedCatalogError:
        v.ensure('a catalogue with the standard header is accepted', not_(standard))
        return
    v.ensure('a catalogue with another header is rejected as malformed', standard)


def two(v):
    """two catalogues, one after the other"""
    m = setup(v)
    t, u = Table(v, 'the file'), Table(v, 'the other file')
    v.assume(forall(t.n, t.valid))
    v.assume(forall(u.n, u.valid))
    a, b = m.EqEntryReader(File(COLUMNS, t)), m.EqEntryReader(File(COLUMNS, u))
    r = a.read_eq_catalog()
    s = b.read_eq_catalog()
    filled(v, 'first', r, t)
    filled(v, 'second', s, u)


def job(v):
    setup(v)
    j = v.load(JOBS)
    t = Table(v, 'the file')
    v.assume(forall(t.n, t.valid))
    c = context(v)
    name = ops.getitem(c.config, 'eq_catalog_file')

    def open_(path, mode='r', *a, **kw):
        v.ensure('the configured file is read', land(ops.truth(ops.eq(path, name)), 'r' in mode or 'U' in mode))
        return File(COLUMNS, t)
    lib.HOOKS['open'] = open_
    j.read_eq_catalog(c)
    filled(v, 'job', c.eq_catalog, t)


FNS = [EC + ':EqEntryReader.' + f for f in ('__init__', 'read', 'read_eq_catalog', 'convert_values')]
UNITS = [Unit('C03', 'header', header, [EC + ':EqEntryReader.validate_csv_catalog', EC + ':EqEntryReader.__init__']),
         Unit('C03', 'two catalogues', two, FNS), Unit('C03', 'job', job, FNS + [JOBS + ':read_eq_catalog'])]
