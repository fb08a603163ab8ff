"""C07: the events of a source."""
from .common import *
from .c19 import source
from .c27 import matrix

CF = 'mtoolkit.catalog_filter'
INSIDE = z3.Function('point inside the polygon of the source', I, Rl, Rl, B)
OTHER = z3.Function('point inside another polygon', I, Rl, Rl, B)
VALID = z3.Function('polygon of the source is valid', I, B)


class Polygon(object):
    """shapely's polygon of the points given: interior and validity are functions of the points in their order"""
    known = []

    def __init__(self, pts, holes=None):
        self.number = None
        if holes is None:
            for k, p in enumerate(Polygon.known):
                if points(pts, p):
                    self.number = k

    @property
    def is_valid(self):
        return mkbool(VALID(self.number) if self.number is not None else z3.Bool('another polygon is valid'))

    @property
    def wkt(self):
        return ops.SStr(z3.Const('wkt', ops.S))

    def contains(self, p):
        if not isinstance(p, Point):
            raise Unsupported('contains')
        x, y = toreal(num(sym.force(p.x))).z, toreal(num(sym.force(p.y))).z
        return mkbool(INSIDE(self.number, x, y) if self.number is not None else OTHER(0, x, y))


class Point(object):
    def __init__(self, *a):
        if len(a) == 1:
            a = [ops.seq_index(a[0], 0), ops.seq_index(a[0], 1)]
        self.x, self.y = a

    def within(self, p):
        return p.contains(self)


def points(a, b):
    """the same points in the same order, term by term"""
    if a is b:
        return True
    i = num(mknum(z3.Int('point')))
    try:
        if not zb(num(ops.len_(a)) == num(ops.len_(b))).eq(z3.BoolVal(True)):
            return False
        p, q = ops.seq_index(a, i), ops.seq_index(b, i)
        return all(z3.is_true(norm(zb(num(ops.getitem(p, k)) == num(ops.getitem(q, k))))) for k in (0, 1))
    except Unsupported:
        return False


def setup(v, sources):
    v.world()
    m = v.load(CF)
    ss = [source(v, 'source %d' % k) for k in range(sources)]
    Polygon.known = [s.area_boundary.pos_list for s in ss]
    lib.HOOKS['Polygon'], lib.HOOKS['Point'] = Polygon, Point
    n, w = v.int('events', 0), v.int('columns', 7)
    return m, ss, v.array('catalogue', n, w), n, w


def inside(k, cat):
    return SArr((cat.shape[0],), lambda ix: mkbool(INSIDE(k, cat.at(mknum(ix[0]), num(3)).real(), cat.at(mknum(ix[0]), num(4)).real())), 'b')


def selected(v, name, r, cat, k):
    """r holds the rows of the catalogue inside polygon k, in order"""
    e = cat[inside(k, cat)]
    v.ensure(name + ': number of events', num(r.shape[0]) == num(e.shape[0]))
    if v.case(num(e.shape[0]) > 0):
        matrix(v, name, r, e)


def geometric(v):
    m, (s,), cat, n, w = setup(v, 1)
    fz = v.freeze(s, cat)
    try:
        r = m.SourceModelCatalogFilter().filter_eqs(s, cat)
        v.ensure('an invalid polygon is rejected', mkbool(VALID(0)))
        selected(v, 'events', r, cat, 0)
    except RuntimeError:
        v.ensure('a valid polygon is not rejected', not_(mkbool(VALID(0))))
    v.unchanged('source and catalogue', fz)


def pairing(v):
    """two sources with the real geometric filter"""
    m, ss, cat, n, w = setup(v, 2)
    fz = v.freeze(cat, *ss)
    try:
        r = ops.seq_list(m.CatalogFilter(m.SourceModelCatalogFilter()).filter_eqs(ss, cat))
        v.ensure('invalid polygons are rejected', mkbool(z3.And(VALID(0), VALID(1))))
        v.ensure('one selection per source', len(r) == 2)
        for k in (0, 1):
            v.ensure('source %d' % k, r[k][0] is ss[k])
            selected(v, 'events of source %d' % k, r[k][1], cat, k)
    except RuntimeError:
        v.ensure('valid polygons are not rejected', not_(mkbool(z3.And(VALID(0), VALID(1)))))
    v.unchanged('sources and catalogue', fz)


def nothing(v):
    m, ss, cat, n, w = setup(v, 1)
    fz = v.freeze(cat, *ss)
    r = m.NullCatalogFilter().filter_eqs(ss[0], cat)
    matrix(v, 'complete catalogue', r, cat)
    v.unchanged('source and catalogue', fz)


class Selection(object):
    """a source filter under contract: the events are a function of the source, for the given catalogue"""
    def __init__(self, f, cat):
        self.f, self.cat = f, cat

    def filter_eqs(self, sm, cat):
        if cat is not self.cat:
            matrix(RT.v, 'catalogue given to the source filter', cat, self.cat)
        return OObj(self.f(sm.t), 'Events')


def pairs(filtered):
    """any number of sources"""
    def run(v):
        m, ss, cat, n, w = setup(v, 0)
        obj = z3.DeclareSort('Obj')
        k, src, sel = v.int('sources', 0), z3.Function('source', I, obj), z3.Function('selected', obj, obj)
        sms = [Seg(k, lambda i: OObj(src(zi(i)), 'AreaSource'))]
        fz = v.freeze(sms, cat)
        f = m.CatalogFilter(Selection(sel, cat)) if filtered else m.CatalogFilter()
        r = ops.seq_list(f.filter_eqs(sms, cat))
        v.unchanged('sources and catalogue', fz)
        v.ensure('one pair per source', num(ops.len_(r)) == k)
        v.ensure_all('sources in order', k, lambda i: ops.truth(ops.eq(ops.getitem(ops.seq_index(r, i), 0), OObj(src(zi(i)), 'AreaSource'))))
        if filtered:
            v.ensure_all('each with its own events', k, lambda i: ops.truth(ops.eq(
                ops.getitem(ops.seq_index(r, i), 1), OObj(sel(src(zi(i))), 'Events'))))
        elif v.case(k > 0):
            i = v.int('which', 0)
            v.assume(i < k)
            matrix(v, 'complete catalogue', ops.getitem(ops.seq_index(r, i), 1), cat)
    return run


G = [CF + ':SourceModelCatalogFilter.filter_eqs', CF + ':_check_polygon', CF + ':_extract_polygon']
A = ['shapely: Polygon(points).is_valid and .contains(Point(x, y)) are functions of the points in order and of (x, y)']
UNITS = [Unit('C07', 'SourceModelCatalogFilter', geometric, G, A),
         Unit('C07', 'CatalogFilter, two sources with geometry', pairing, G + [CF + ':CatalogFilter.filter_eqs'], A),
         Unit('C07', 'NullCatalogFilter', nothing, [CF + ':NullCatalogFilter.filter_eqs']),
         Unit('C07', 'CatalogFilter', pairs(True), [CF + ':CatalogFilter.filter_eqs', CF + ':CatalogFilter.__init__']),
         Unit('C07', 'CatalogFilter, no filter', pairs(False), [CF + ':CatalogFilter.filter_eqs', CF + ':CatalogFilter.__init__'])]
