"""C08: Gardner-Knopoff declustering."""
from .common import *
from pyvc.sym import forall2

HAV = z3.Function('haversine', Rl, Rl, Rl, Rl, Rl)
YEAR = z3.Function('decimal_year', Rl, Rl, Rl, Rl)
SPACE, TIME = z3.Function('distance_window', Rl, Rl), z3.Function('time_window', Rl, Rl)
KIND = 'some window'


def app(f, *a):
    return mknum(f(*[toreal(x).real() for x in a]))


def haversine(lon1, lat1, lon2, lat2, radians=False, earth_rad=None):
    """distances of the first points to the second one (C11)"""
    if radians is not False or earth_rad is not None or isinstance(lon2, SArr) or isinstance(lat2, SArr):
        raise Unsupported('arguments of haversine')
    if not isinstance(lon1, SArr):
        return SArr((1, 1), lambda ix: app(HAV, lon1, lat1, lon2, lat2), 'f')
    n = lon1.shape[0]
    return SArr((n, 1), lambda ix: app(HAV, lon1.at(ix[0]), lat1.at(ix[0]), lon2, lat2), 'f')


def decimal_year(y, m, d):
    return arr.ew(lambda a, b, c: app(YEAR, a, b, c), y, m, d, dt='f')


class Window(object):
    """a pair of windows (C10)"""
    def calc(self, m):
        return arr.ew(lambda x: app(SPACE, x), m, dt='f'), arr.ew(lambda x: app(TIME, x), m, dt='f')


class Sorted(object):
    """the events in descending order of their magnitudes"""
    def __init__(self, v, cat, n, fs=None):
        self.n = n
        col = lambda c: SArr((n,), lambda ix: cat.at(ix[0], c), 'f')
        self.up = up = npm.argsort(col(5))
        self.id0 = id0 = npm.flipud(up)
        self.p = p = lambda i: id0.at(i)
        self.row = lambda i, c: cat.at(p(i), c)
        self.mag = lambda i: self.row(i, 5)
        self.year = lambda i: app(YEAR, self.row(i, 0), self.row(i, 1), self.row(i, 2))
        self.space = lambda i: app(SPACE, self.mag(i))
        self.time = lambda i: app(TIME, self.mag(i))
        self.dist = lambda e, i: app(HAV, self.row(i, 3), self.row(i, 4), self.row(e, 3), self.row(e, 4))
        self.dt = lambda e, i: self.year(i) - self.year(e)
        self.fs = fs


def world(v, more={}):
    v.world(dict(more, **{CU + ':haversine': haversine, CU + ':decimal_year': decimal_year}))
    m = v.load(DC)
    m.time_dist_windows = {KIND: Window()}
    return m


def gk(v):
    m = world(v)
    n = v.int('n', 0)
    v.case(n >= 1)
    cat = v.array('cat', n, 6)
    fs = v.real('fs', 0)
    s = Sorted(v, cat, n, fs)
    v.assume(forall(n, lambda i: s.dist(i, i) == 0))
    v.assume(forall(n, lambda i: land(s.space(i) > 0, s.time(i) > 0)))
    fz = v.freeze(cat)
    near = lambda e, i: land(s.dt(e, i) >= -s.time(e) * fs, s.dt(e, i) <= s.time(e), s.dist(e, i) <= s.space(e))

    def inv(st):
        vcl, fl, c, k = st['vcl'], st['flagvector'], st['clust_index'], st.k
        V_, G = lambda i: vcl.at(i), lambda i: fl.at(i)
        return [('cluster numbers in range', forall(n, lambda i: land(V_(i) >= 0, V_(i) <= c))),
                ('flags', forall(n, lambda i: land(lor(G(i) == 0, G(i) == 1, G(i) == -1), implies(V_(i) == 0, G(i) == 0)))),
                ('one retained event per cluster', forall2(n, n, lambda i, j: implies(
                    land(V_(i) == V_(j), V_(i) != 0, G(i) == 0, G(j) == 0), i == j))),
                ('main shocks come first', forall(n, lambda i: implies(land(V_(i) != 0, G(i) == 0), i < k))),
                ('larger events first', forall2(k, n, lambda e, i: implies(
                    land(e < i, G(e) == 0, G(i) == 0), not_(near(e, i))))),
                ('removed events', forall(n, lambda i: implies(G(i) != 0, exists(n, lambda e: land(
                    V_(e) == V_(i), G(e) == 0, near(e, i), ite(G(i) == 1, s.dt(e, i) >= 0, s.dt(e, i) < 0))))))]
    v.invariant(DC + ':gardner_knopoff_decluster#1', inv)
    vcl, main, fl = m.gardner_knopoff_decluster(cat, KIND, fs)
    v.unchanged('inputs', fz)
    v.shape_is('clusters', vcl, n)
    v.shape_is('flags', fl, n)
    V_, G = lambda i: vcl.at(i), lambda i: fl.at(i)
    v.ensure_all('flags', n, lambda i: land(V_(i) >= 0, lor(G(i) == 0, G(i) == 1, G(i) == -1)))
    v.ensure_all('an event outside every cluster is retained', n, lambda i: implies(V_(i) == 0, G(i) == 0))
    row = lambda i, c: cat.at(i, c)
    yr = lambda i: app(YEAR, row(i, 0), row(i, 1), row(i, 2))
    near = lambda e, i: land(yr(i) - yr(e) >= -app(TIME, row(e, 5)) * fs, yr(i) - yr(e) <= app(TIME, row(e, 5)),
                             app(HAV, row(i, 3), row(i, 4), row(e, 3), row(e, 4)) <= app(SPACE, row(e, 5)))
    v.ensure_all2('one retained event per cluster', n, n, lambda i, j: implies(
        land(V_(i) == V_(j), V_(i) != 0, G(i) == 0, G(j) == 0), i == j))
    v.ensure_all('removed events lie within the windows of the main shock', n, lambda i: implies(G(i) != 0, exists(n, lambda k: (lambda e: land(
        e >= 0, e < n, V_(e) == V_(i), G(e) == 0, near(e, i), ite(G(i) == 1, yr(i) >= yr(e), yr(i) < yr(e))))(k))))
    v.ensure_all2('retained events are not within the windows of larger ones', n, n, lambda e, i: implies(
        land(G(e) == 0, G(i) == 0, row(e, 5) > row(i, 5)), not_(near(e, i))))
    keep = npm.nonzero(SArr((n,), lambda ix: fl.at(ix[0]) == 0, 'b'))[0]
    v.shape_is('retained events', main, keep.shape[0], 6)
    v.ensure_all2('retained events are the rows with flag 0, in order', keep.shape[0], 6, lambda i, c: main.at(i, c) == cat.at(keep.at(i), c))


UNITS = [Unit('C08', 'gardner_knopoff_decluster', gk, [DC + ':gardner_knopoff_decluster'], budget=60)]
