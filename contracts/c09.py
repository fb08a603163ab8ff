"""C09: Afteran declustering."""
from .common import *
from .c08 import (HAV, YEAR, SPACE, TIME, KIND, app, haversine, decimal_year, Window, Sorted, world)
from pyvc.sym import forall2

AFT = z3.Function('aftershock', I, I, B)
FOR = z3.Function('foreshock', I, I, B)
# witnesses of the promises below, in loop iteration k
AW, FW = z3.Function('earlier_aftershock', I, I, I), z3.Function('later_foreshock', I, I, I)
AQ, FQ, EA, EF = [z3.Function(nm, I, I) for nm in ('an_aftershock', 'a_foreshock', 'place_of_aftershock', 'place_of_foreshock')]


def exists_(w):
    """an existential of a promise, with a name for its witness"""
    return lambda n, body, lo=0: land(w >= lo, w < n, body(w))


def after(d, tw, a, b):
    """b follows a within the moving window"""
    return land(d(b) - d(a) >= 0, d(b) - d(a) <= tw)


def before(d, tw, a, b):
    return land(d(b) - d(a) <= 0, d(b) - d(a) >= -tw)


def post_after(n, d, tw, vs, ex=lambda j: exists, some=exists):
    """what _find_aftershocks promises"""
    return [('the main shock itself', vs(num(0))),
            ('aftershocks follow an earlier one', forall(n, lambda j: implies(
                vs(j), ex(j)(j, lambda i: land(vs(i), after(d, tw, i, j)))), lo=1)),
            ('no aftershock is missed', forall(n, lambda j: lor(
                some(n, vs, lo=1), not_(after(d, tw, 0, j))), lo=1))]


def post_before(n, d, tw, va, vs, ex=lambda j: exists, some=exists):
    """what _find_foreshocks promises"""
    return [('not the main shock', not_(vs(num(0)))),
            ('foreshocks are no aftershocks', forall(n, lambda j: implies(vs(j), not_(va(j))))),
            ('foreshocks precede an earlier one', forall(n, lambda j: implies(
                vs(j), ex(j)(j, lambda i: land(lor(i == 0, vs(i)), before(d, tw, i, j)))), lo=1)),
            ('no foreshock is missed', forall(n, lambda j: lor(
                va(j), some(n, vs, lo=1), not_(before(d, tw, 0, j))), lo=1))]


def find_after(v):
    v.world()
    m = v.load(DC)
    n = v.int('n', 1)
    d = v.array('dtime', n)
    tw = v.real('window')
    v.assume(tw > 0)
    fz = v.freeze(d)
    D = lambda i: d.at(i)

    def inv(st):
        vs, last, j = lambda i: st['vsel'].at(i), st['initval'], st.counter('j', 1)
        return [('position', land(j >= 1, j <= n)),
                ('the last one', exists(j, lambda i: land(vs(i), D(i) == last))),
                ('main shock', vs(num(0))),
                ('none yet', lor(exists(j, lambda q: land(q >= 1, vs(q))), land(last == D(0), forall(j, lambda i: not_(after(D, tw, 0, i)), lo=1)))),
                ('follow', forall(j, lambda i: implies(vs(i), exists(i, lambda q: land(vs(q), after(D, tw, q, i)))), lo=1))]
    v.invariant(DC + ':_find_aftershocks#1', inv)
    r = m._find_aftershocks(d, n, tw)
    v.unchanged('inputs', fz)
    v.shape_is('aftershocks', r, n)
    for nm, c in post_after(n, D, tw, lambda i: r.at(i)):
        v.ensure(nm, c)


def find_before(v):
    v.world()
    m = v.load(DC)
    n = v.int('n', 1)
    d, a = v.array('dtime', n), v.array('aftershocks', n, dt='b')
    tw = v.real('window')
    v.assume(tw > 0)
    fz = v.freeze(d, a)
    D, va = lambda i: d.at(i), lambda i: a.at(i)

    def inv(st):
        vs, last, j = lambda i: st['vsel'].at(i), st['initval'], st.counter('j', 1)
        return [('position', land(j >= 1, j <= n)),
                ('the last one', exists(j, lambda i: land(lor(i == 0, vs(i)), D(i) == last))),
                ('main shock', not_(vs(num(0)))),
                ('none yet', lor(exists(j, lambda q: land(q >= 1, vs(q))), land(
                    last == D(0), forall(j, lambda i: lor(va(i), not_(before(D, tw, 0, i))), lo=1)))),
                ('no aftershocks', forall(n, lambda i: implies(vs(i), not_(va(i))))),
                ('precede', forall(j, lambda i: implies(vs(i), exists(i, lambda q: land(lor(q == 0, vs(q)), before(D, tw, q, i)))), lo=1))]
    v.invariant(DC + ':_find_foreshocks#1', inv)
    r = m._find_foreshocks(d, n, tw, a)
    v.unchanged('inputs', fz)
    v.shape_is('foreshocks', r, n)
    for nm, c in post_before(n, D, tw, va, lambda i: r.at(i)):
        v.ensure(nm, c)


def afteran(v):
    v.world()

    def lemma(name, c):
        v.ensure(name, c)
        RT.fact(c)

    def period():
        if not RT.loop_index:
            raise Unsupported('not in the loop over the events')
        return RT.loop_index[-1]

    def given(d, nval):
        if not isinstance(d, SArr) or len(d.shape) != 1:
            raise Unsupported('times of the events')
        n = d.shape[0]
        v.ensure('number of events given', num(nval) == num(n))
        v.ensure('there is an event', num(n) >= 1)
        sel = d.via[0]
        if sel is not None:
            k = period()
            lemma('the first event is the main shock', land(mknum(sel.rank(k)) == 0, mknum(sel.sel(z3.IntVal(0))) == mknum(k)))
        return n

    def events(d):
        """the selected events, in terms of the sorted catalogue"""
        sel, k = d.via[0], period()
        if sel is None:
            raise Unsupported('the selected events')
        ev = lambda e: mkbool(sel.pred(zi(e)))
        return (ev, lambda e: land(ev(e), mkbool(AFT(k, zi(sel.rank(zi(e)))))), lambda e: land(ev(e), mkbool(FOR(k, zi(sel.rank(zi(e)))))))

    def find_aftershocks(dtime, nval, time_window):
        n, k = given(dtime, nval), period()
        vs = lambda i: mkbool(AFT(k, zi(i)))
        w = lambda j: mknum(AW(k, zi(j)))
        for nm, c in post_after(n, lambda i: dtime.at(i), time_window, vs, lambda j: exists_(w(j)), exists_(mknum(AQ(k)))):
            RT.fact(c)
        ev, va, vf = events(dtime)
        sel = dtime.via[0]
        at = lambda e: mknum(sel.sel(zi(w(mknum(sel.rank(zi(e)))))))
        v.ensure('the window is the one given', time_window == tw)
        r = lambda e: mknum(sel.rank(zi(e)))
        lemma('place of a selected event', forall(cn, lambda e: implies(ev(e), land(r(e) >= 0, r(e) < n))))
        lemma('place of another event', forall(cn, lambda e: implies(land(ev(e), e != k), r(e) >= 1)))
        for nm, c in (('witness', lambda e: land(w(r(e)) >= 0, w(r(e)) < r(e))),
                      ('witness in range', lambda e: land(at(e) >= 0, at(e) < cn)),
                      ('witness is an aftershock', lambda e: va(at(e))),
                      ('witness comes first', lambda e: at(e) < e),
                      ('witness is close in time', lambda e: land(s.dt(at(e), e) >= 0, s.dt(at(e), e) <= tw))):
            lemma('aftershocks in the sorted catalogue: ' + nm, forall(cn, lambda e: implies(land(va(e), e != k), c(e))))
        return SArr((n,), lambda ix: vs(ix[0]), 'b')

    def find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
        n, k = given(dtime, nval), period()
        vs = lambda i: mkbool(FOR(k, zi(i)))
        w = lambda j: mknum(FW(k, zi(j)))
        for nm, c in post_before(n, lambda i: dtime.at(i), time_window, lambda i: vsel_aftershocks.at(i), vs,
                                 lambda j: exists_(w(j)), exists_(mknum(FQ(k)))):
            RT.fact(c)
        ev, va, vf = events(dtime)
        sel = dtime.via[0]
        v.ensure('the window is the one given', time_window == tw)
        at = lambda e: mknum(sel.sel(zi(w(mknum(sel.rank(zi(e)))))))
        lemma('the first event is an aftershock', land(ev(k), va(k), mknum(sel.rank(zi(k))) == 0))
        r = lambda e: mknum(sel.rank(zi(e)))
        for nm, c in (('another event', lambda e: e != k),
                      ('witness', lambda e: land(w(r(e)) >= 0, w(r(e)) < r(e))),
                      ('witness in range', lambda e: land(at(e) >= 0, at(e) < cn)),
                      ('witness is the main shock or a foreshock', lambda e: lor(at(e) == k, vf(at(e)))),
                      ('witness comes first', lambda e: at(e) < e),
                      ('witness is close in time', lambda e: land(s.dt(at(e), e) <= 0, s.dt(at(e), e) >= -tw))):
            lemma('foreshocks in the sorted catalogue: ' + nm, forall(cn, lambda e: implies(vf(e), c(e))))
        both = npm.nonzero(SArr((cn,), lambda ix: lor(va(ix[0]), vf(ix[0])), 'b'))[0]
        bs, c = both.via[0], num(both.shape[0])
        r = lambda e: mknum(bs.rank(zi(e)))
        lemma('two events', forall(cn, lambda e: implies(land(e != k, lor(va(e), vf(e))), land(
            r(e) >= 0, r(e) < c, r(k) >= 0, r(k) < c, r(e) != r(k), c > 1))))
        for q, e, g in ((AQ, EA, va), (FQ, EF, vf)):
            e = mknum(e(k))
            RT.fact(e == mknum(sel.sel(q(k))))      # a name
            lemma('one event, no other one', lor(c > 1, not_(g(e)), e == k, e < 0, e >= cn))
            lemma('one event, no other place', lor(c > 1, mknum(q(k)) < 1, mknum(q(k)) >= n, not_(
                mkbool((AFT if q is AQ else FOR)(k, q(k))))))
        lemma('one event, nothing after', forall(cn, lambda e: implies(land(e != k, ev(e), c <= 1), lor(
            s.dt(k, e) < 0, s.dt(k, e) > tw))))
        lemma('one event, nothing before', forall(cn, lambda e: implies(land(e != k, ev(e), c <= 1), lor(
            s.dt(k, e) < -tw, s.dt(k, e) > 0))))
        return SArr((n,), lambda ix: vs(ix[0]), 'b')
    m = world(v, {DC + ':_find_aftershocks': find_aftershocks, DC + ':_find_foreshocks': find_foreshocks})
    n = v.int('n', 0)
    v.case(n >= 1)
    cat = v.array('cat', n, 6)
    days = v.real('days')
    v.assume(days > 0)
    tw = days / 365
    s, cn = Sorted(v, cat, n), n
    v.assume(forall(n, lambda i: s.dist(i, i) == 0))
    v.assume(forall(n, lambda i: s.space(i) > 0))
    fz = v.freeze(cat)
    link = lambda e, i, g: ite(g == 1, land(s.dt(e, i) >= 0, s.dt(e, i) <= tw), land(s.dt(e, i) <= 0, s.dt(e, i) >= -tw))

    def inv(st):
        c, k = st['clust_index'], st.k
        V_, G = lambda i: st['vcl'].at(i, 0), lambda i: st['flagvector'].at(i, 0)
        return [('position', st.counter('i') == k),
                ('cluster numbers in range', forall(n, lambda i: land(V_(i) >= 0, V_(i) <= c))),
                ('flags', forall(n, lambda i: land(lor(G(i) == 0, G(i) == 1, G(i) == -1), implies(V_(i) == 0, G(i) == 0)))),
                ('one retained event per cluster', forall2(n, n, lambda i, j: implies(
                    land(V_(i) == V_(j), V_(i) != 0, G(i) == 0, G(j) == 0), i == j))),
                ('main shocks come first', forall(n, lambda i: implies(land(V_(i) != 0, G(i) == 0), i < k))),
                ('within the distance of the main shock', forall(n, lambda i: implies(G(i) != 0, exists(n, lambda e: land(
                    e < i, V_(e) == V_(i), G(e) == 0, s.dist(e, i) <= s.space(e)))))),
                ('linked aftershocks', forall(n, lambda i: implies(G(i) == 1, exists(n, lambda e: land(
                    e < i, V_(e) == V_(i), lor(G(e) == 0, G(e) == 1), s.dt(e, i) >= 0, s.dt(e, i) <= tw))))),
                ('linked foreshocks', forall(n, lambda i: implies(G(i) == -1, exists(n, lambda e: land(
                    e < i, V_(e) == V_(i), lor(G(e) == 0, G(e) == -1), s.dt(e, i) <= 0, s.dt(e, i) >= -tw))))),
                ('later events outside every cluster', forall2(k, n, lambda e, i: implies(
                    land(e < i, V_(e) == 0, V_(i) == 0), not_(land(s.dist(e, i) <= s.space(e), s.dt(e, i) <= tw, s.dt(e, i) >= 0))))),
                ('earlier events outside every cluster', forall2(k, n, lambda e, i: implies(
                    land(e < i, V_(e) == 0, V_(i) == 0), not_(land(s.dist(e, i) <= s.space(e), s.dt(e, i) <= 0, s.dt(e, i) >= -tw)))))]
    v.invariant(DC + ':afteran_decluster#1', inv)
    vcl, main, fl = m.afteran_decluster(cat, KIND, days)
    v.unchanged('inputs', fz)
    v.shape_is('clusters', vcl, n)
    v.shape_is('flags', fl, n)
    V_, G = lambda i: vcl.at(i), lambda i: fl.at(i)
    order = npm.argsort(s.id0)
    pos = lambda i: order.at(i)         # place in the descending order of the magnitudes
    row = lambda i, c: cat.at(i, c)
    yr = lambda i: app(YEAR, row(i, 0), row(i, 1), row(i, 2))
    dt = lambda e, i: yr(i) - yr(e)
    dist = lambda e, i: app(HAV, row(i, 3), row(i, 4), row(e, 3), row(e, 4)) <= app(SPACE, row(e, 5))
    v.ensure_all('flags', n, lambda i: land(V_(i) >= 0, lor(G(i) == 0, G(i) == 1, G(i) == -1)))
    v.ensure_all('an event outside every cluster is retained', n, lambda i: implies(V_(i) == 0, G(i) == 0))
    v.ensure_all2('one retained event per cluster', n, n, lambda i, j: implies(
        land(V_(i) == V_(j), V_(i) != 0, G(i) == 0, G(j) == 0), i == j))
    v.ensure_all('main shock of every removed event', n, lambda i: implies(G(i) != 0, exists(n, lambda e: land(
        V_(e) == V_(i), G(e) == 0, pos(e) < pos(i), row(e, 5) >= row(i, 5), dist(e, i)))))
    v.ensure_all('aftershocks follow an earlier event of their chain', n, lambda i: implies(G(i) == 1, exists(n, lambda e: land(
        V_(e) == V_(i), lor(G(e) == 0, G(e) == 1), pos(e) < pos(i), dt(e, i) >= 0, dt(e, i) <= tw))))
    v.ensure_all('foreshocks precede an earlier event of their chain', n, lambda i: implies(G(i) == -1, exists(n, lambda e: land(
        V_(e) == V_(i), lor(G(e) == 0, G(e) == -1), pos(e) < pos(i), dt(e, i) <= 0, dt(e, i) >= -tw))))
    v.ensure_all2('events outside every cluster are apart', n, n, lambda e, i: implies(
        land(V_(e) == 0, V_(i) == 0, row(e, 5) > row(i, 5)), not_(land(dist(e, i), dt(e, i) >= -tw, dt(e, i) <= tw))))
    keep = npm.nonzero(SArr((n,), lambda ix: fl.at(ix[0]) == 0, 'b'))[0]
    v.shape_is('retained events', main, keep.shape[0], 6)
    v.ensure_all2('retained events are the rows with flag 0, in order', keep.shape[0], 6, lambda i, c: main.at(i, c) == cat.at(keep.at(i), c))


UNITS = [Unit('C09', '_find_aftershocks', find_after, [DC + ':_find_aftershocks'], budget=60),
         Unit('C09', '_find_foreshocks', find_before, [DC + ':_find_foreshocks'], budget=60),
         Unit('C09', 'afteran_decluster', afteran, [DC + ':afteran_decluster'], budget=60)]
