import copy
import numpy as np
from .base import *

RULE = ('catalogues of 0 to 12 events (7 or more columns) against 1 to 3 sources whose boundaries are boxes with events on their edges, '
        'random simple polygons (also concave, closed or not, either orientation) or self-crossing ones; a case counts when every selection '
        'was compared with an independent point-in-polygon test and the rows with those of the catalogue')


def polygon(g):
    k = g.int(0, 9)
    if k < 3:
        x, y, w, h = g.int(-10, 8), g.int(-10, 8), g.int(1, 8), g.int(1, 8)
        p = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    elif k < 8:
        n = g.int(3, 7)
        a = sorted(g.real(0, 2 * math.pi) for _ in range(n))
        cx, cy = g.real(-5, 5), g.real(-5, 5)
        p = [[cx + r * math.cos(t), cy + r * math.sin(t)] for t, r in ((t, g.real(1, 9)) for t in a)]
    else:
        x, y, w, h = g.int(-10, 8), g.int(-10, 8), g.int(2, 8), g.int(2, 8)
        p = [[x, y], [x + w, y + h], [x + w, y], [x, y + h]]
    if g.chance(.5):
        p = p[::-1]
    if g.chance(.6):
        p = p + [list(p[0])]
    return p


def gen(g):
    ps = [polygon(g) for _ in range(g.int(1, 3))]
    ev = []
    for _ in range(g.int(0, 12)):
        x, y = g.pick((g.real(-10, 10), g.real(-10, 10)), (float(g.int(-10, 10)), float(g.int(-10, 10))))
        ev.append([g.int(1900, 2010), g.int(1, 12), g.int(1, 28), x, y, g.real(3, 8), 0.1, g.real(0, 1)][:g.pick(7, 7, 8)])
    if ev:
        ev = [(e + [.5])[:len(ev[0])] if len(e) < len(ev[0]) else e[:len(ev[0])] for e in ev]
        for _ in range(g.int(0, 2)):
            ev.append(list(g.r.choice(ev)))
    return {'polygons': ps, 'events': ev}


def ring(p):
    return p[:-1] if p[0] == p[-1] else p


def edges(p):
    p = ring(p)
    return [(p[i], p[(i + 1) % len(p)]) for i in range(len(p))]


def side(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def simple(p):
    """None when doubtful"""
    es = edges(p)
    for i in range(len(es)):
        for j in range(i + 1, len(es)):
            a, b = es[i]
            c, d = es[j]
            near_ = j == i + 1 or (i == 0 and j == len(es) - 1)
            s = [side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)]
            if near_:
                o = s[1] if j == i + 1 else s[0]
                if abs(o) < 1e-6:
                    return None
                continue
            if any(abs(x) < 1e-6 for x in s):
                lim = lambda q, k: max(min(e[k] for e in q), -99)
                if max(min(a[0], b[0]), min(c[0], d[0])) <= min(max(a[0], b[0]), max(c[0], d[0])) + 1e-6 and \
                        max(min(a[1], b[1]), min(c[1], d[1])) <= min(max(a[1], b[1]), max(c[1], d[1])) + 1e-6:
                    return None
                continue
            if s[0] * s[1] < 0 and s[2] * s[3] < 0:
                return False
    return True


def inside(p, x, y):
    """strictly inside; None when doubtful"""
    r = False
    for a, b in edges(p):
        n = math.hypot(b[0] - a[0], b[1] - a[1])
        if n and abs(side(a, b, (x, y))) / n < 1e-9:
            t = ((x - a[0]) * (b[0] - a[0]) + (y - a[1]) * (b[1] - a[1])) / n / n
            exact = all(float(q).is_integer() for q in a + b + [x, y]) and (a[0] == b[0] or a[1] == b[1])
            if -1e-9 <= t <= 1 + 1e-9:
                return False if exact else None
        if (a[1] > y) != (b[1] > y) and x < a[0] + (y - a[1]) * (b[0] - a[0]) / (b[1] - a[1]):
            r = not r
    return r


def run(case):
    import mtoolkit.catalog_filter as C
    from mtoolkit.source_model import AreaSource, AREA_BOUNDARY, POINT
    sources, ok = [], []
    for i, p in enumerate(case['polygons']):
        s = AreaSource()
        s.name = 's%d' % i
        s.area_boundary = AREA_BOUNDARY('EPSG:4326', [POINT(float(x), float(y)) for x, y in p])
        sources.append(s)
        ok.append(simple(p))
    if None in ok:
        raise Skip('doubtful validity')
    e = case['events']
    m = np.array(e, float) if e else np.zeros((0, 7))
    want = []
    for p, k in zip(case['polygons'], ok):
        q = [inside(p, r[3], r[4]) for r in e] if k else []
        if None in q:
            raise Skip('event on a boundary')
        want.append(m[np.array(q, bool)] if q else np.zeros((0, m.shape[1])))
    was, before = m.copy(), copy.deepcopy(sources)

    def same(r, w, what):
        r = np.asarray(r)
        same_array(r.reshape(w.shape) if w.size == 0 and r.size == 0 else r, w, what)
    for s, k, w in zip(sources, ok, want):
        try:
            r = C.SourceModelCatalogFilter().filter_eqs(s, m)
        except RuntimeError as x:
            need(not k, 'the valid polygon of %s is rejected: %s', s.name, x)
            continue
        need(k, 'the invalid polygon of %s is not rejected', s.name)
        same(r, w, 'events of ' + s.name)
        unchanged('the filter', [was], [m])
    if all(ok):
        r = list(C.CatalogFilter(C.SourceModelCatalogFilter()).filter_eqs(sources, m))
        need(len(r) == len(sources), '%d pairs', len(r))
        for (a, b), s, w in zip(r, sources, want):
            need(a is s, 'source %s in place of %s', a.name, s.name)
            same(b, w, 'events paired with ' + s.name)
    r = list(C.CatalogFilter().filter_eqs(sources, m))
    need(len(r) == len(sources), '%d pairs', len(r))
    for (a, b), s in zip(r, sources):
        need(a is s, 'source %s in place of %s', a.name, s.name)
        same(b, m, 'complete catalogue for ' + s.name)
    unchanged('the filters', [was], [m])
    for a, b in zip(before, sources):
        need(a == b, 'source %s was modified', b.name)
