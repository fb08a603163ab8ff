"""C04: the preprocessed catalogue file."""
from .catalogue import *
from .c27 import JOBS, context, before, others


def text_of(x):
    """what csv writes for a value, which reading gives back"""
    if isinstance(x, sym.Choice):
        return sym.Choice(x.c, text_of(x.a), text_of(x.b))
    if sym.isnum(x):
        return lib.num_text(num(x))
    if not isinstance(x, (str, ops.SStr)):
        raise Unsupported('csv value %r' % type(x))
    return x


class Out(object):
    """a file opened for writing, and csv.DictWriter on it"""
    def __init__(self, files, key):
        self.files, self.key, self.columns, self.header, self.rows = files, key, None, None, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    flush = close


class Writer(object):
    def __init__(self, f, fieldnames, restval='', extrasaction='raise', dialect='excel', **kw):
        if not isinstance(f, Out) or dialect != 'excel' or extrasaction != 'raise' or restval != '' or set(kw) - {'lineterminator'}:
            raise Unsupported('DictWriter')
        if kw and kw['lineterminator'] not in ('\n', '\r\n'):
            raise Unsupported('line terminator')
        names = ops.seq_list(fieldnames)
        if any(not isinstance(x, str) for x in names):
            raise Unsupported('columns given to DictWriter')
        self.out, self.fieldnames = f, names
        f.columns = names

    def writeheader(self):
        if self.out.header is not None or self.out.rows:
            raise Unsupported('header in the middle')
        self.out.header = list(self.fieldnames)

    def row(self, d):
        if not isinstance(d, dict):
            raise Unsupported('row %r' % type(d))
        if any(k not in self.fieldnames for k in d):
            raise ValueError('dict contains fields not in fieldnames')
        return [text_of(d[k]) if k in d else '' for k in self.fieldnames]

    def writerow(self, d):
        if self.out.header is None:
            self.out.header = self.row(d)
            raise Unsupported('rows before the header')
        self.out.rows.append(self.row(d))

    def writerows(self, rows):
        if self.out.header is None:
            raise Unsupported('rows before the header')
        for x in ops.seq_list(rows):
            if isinstance(x, Seg):
                self.row(x.f(z3.Int('some row')))
                self.out.rows.append(Seg(x.n, lambda i, f=x.f: self.row(f(i))))
            else:
                self.out.rows.append(self.row(x))


class Files(object):
    """the written files by name"""
    def __init__(self, v):
        self.v, self.f, self.names = v, {}, []

    def open(self, name, mode='r', *a, **kw):
        if mode not in ('w', 'wb', 'wt') or a or set(kw) - {'newline', 'encoding'}:
            raise Unsupported('open with mode %r' % (mode,))
        o = Out(self, name)
        self.names.append(name)
        self.f[name if isinstance(name, str) else name.t.sexpr()] = o
        return o

    def written(self, name):
        """the file of this name"""
        self.v.ensure('one file is written, under the given name', land(
            len(self.names) > 0, *[ops.truth(ops.eq(x, name)) for x in self.names]))
        if not self.names:
            raise PathEnd()
        return self.f[name if isinstance(name, str) else name.t.sexpr()]


def os_model():
    """the directory part of the path, which exists"""
    f = {}

    def fn(k):
        def g(x):
            h = f.setdefault(k, z3.Function('os.path.' + k, ops.S, ops.S))
            return ops.SStr(h(x.t if isinstance(x, ops.SStr) else ops.SStr.lit(x).t)) if not isinstance(x, str) else x
        return g
    import posixpath
    path = lib._mod('os.path', join=posixpath.join, dirname=fn('dirname'), abspath=fn('abspath'), realpath=fn('realpath'), expanduser=fn('expanduser'),
                    normpath=fn('normpath'), exists=lambda x: True, isdir=lambda x: True)
    m = lib._mod('os', path=path, makedirs=lambda *a, **k: None)
    return m, path


def world(v):
    v.world()
    fs = Files(v)
    lib.HOOKS['csv.DictReader'] = dict_reader
    lib.HOOKS['csv.DictWriter'] = Writer
    lib.HOOKS['open'] = fs.open
    lib.HOOKS['os'], lib.HOOKS['os.path'] = os_model()
    return fs


OPTIONAL = [c for c in COLUMNS if c not in COMPULSORY and c != 'Agency']


def events(v, n):
    """n events as reading gives them: optional values may be blank"""
    f = {k: z3.Function('event:' + k, I, I if k in INTS else Rl) for k in COLUMNS}
    has = {k: z3.Function('event has ' + k, I, B) for k in OPTIONAL}
    agency = z3.Function('event:text', I, ops.S)

    def get(i, k):
        if k == 'Agency':
            return ops.SStr(agency(zi(i)))
        x = mknum(f[k](zi(i)))
        return x if k in COMPULSORY or k == 'sigmaMw' else sym.Choice(mkbool(has[k](zi(i))), x, '')
    v.get = get

    def fine(i):
        x = lambda k: mknum(f[k](zi(i)))
        h = lambda k: mkbool(has[k](zi(i)))
        t = Table.__new__(Table)
        t.ok, t.val = lambda i, col: True, lambda i, col: x(col)
        cs = [t.good(i, k) for k in COMPULSORY] + [x('sigmaMw') >= 0]
        for k in OPTIONAL:
            if k not in ('sigmaMw', 'ErrorStrike'):
                cs.append(implies(h(k), t.kept(i, k) if k not in ELLIPSE else x(k) >= 0))
        a, b, s = ELLIPSE
        cs.append(implies(h(s), land(h(a), h(b), x(s) >= 0, x(s) <= 360, x(b) <= x(a))))
        cs.append(implies(not_(h(s)), land(not_(h(a)), not_(h(b)))))
        return land(*cs)
    v.fine = fine
    return [Seg(n, lambda i: dict((k, get(i, k)) for k in COLUMNS))]


def same_text(cell, x):
    """the cell is the text of the value"""
    if isinstance(cell, sym.Choice):
        return ite(cell.c, same_text(cell.a, x), same_text(cell.b, x))
    if isinstance(x, sym.Choice):
        return ite(x.c, same_text(cell, x.a), same_text(cell, x.b))
    if sym.isnum(x):
        return land(isinstance(cell, ops.SStr) and cell.info is not None and cell.info[0] == 'num' and num(cell.info[1]) == num(x))
    return ops.truth(ops.eq(cell, x))


def store(v):
    fs = world(v)
    j = v.load(JOBS)
    c = context(v)
    n = v.n
    c.eq_catalog = events(v, n)
    S = c.selected_eq_vector
    st = before(v, c)
    j.store_preprocessed_catalog(c)
    out = fs.written(ops.getitem(c.config, 'pprocessing_result_file'))
    v.ensure('the standard header is written first', out.header == COLUMNS)
    keep = npm.arange(n)[SArr((n,), lambda ix: S.at(mknum(zi(ix[0]))) == 0, 'b')]
    v.ensure('one line per selected event', num(ops.len_(out.rows)) == num(keep.shape[0]))
    for j_, col in enumerate(COLUMNS):
        v.ensure_all('%s of the selected events, in order' % col, keep.shape[0], lambda i: same_text(
            ops.seq_index(ops.seq_index(out.rows, i), j_), v.get(zi(keep.at(i)), col)))
    others(v, c, st)


def back(v):
    """what was written is read back"""
    fs = world(v)
    m = v.load(EC)
    n = v.int('events', 0)
    es = events(v, n)
    v.assume(forall(n, v.fine))
    fz = v.freeze(es)
    name = v.str('file name')
    m.EqEntryWriter(name).write_rows(es)
    out = fs.written(name)
    v.unchanged('events', fz)
    if out.header is None:
        v.ensure('a header is written', False)
    t = Table.__new__(Table)
    t.n = num(ops.len_(out.rows))
    v.ensure('one line per event', t.n == n)
    t.cell = lambda i, col: ops.seq_index(ops.seq_index(out.rows, mknum(zi(i))), COLUMNS.index(col))
    r = m.EqEntryReader(File(out.header, t)).read_eq_catalog()
    v.ensure('as many events are read back', ops.len_(r) == n)
    for col in COLUMNS:
        v.ensure_all('%s is read back' % col, n, lambda i: is_(ops.getitem(ops.seq_index(r, i), col), v.get(i, col)))


W = [EC + ':EqEntryWriter.__init__', EC + ':EqEntryWriter.write_rows']
UNITS = [Unit('C04', 'store_preprocessed_catalog', store, [JOBS + ':store_preprocessed_catalog'] + W),
         Unit('C04', 'write and read back', back, W + [EC + ':EqEntryReader.' + f for f in ('__init__', 'read', 'read_eq_catalog', 'convert_values')])]
