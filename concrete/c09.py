import numpy as np
from .base import *
from . import declust

RULE = ('0 to 20 events around 1 to 3 places within 0 to 20 years, ties and duplicates frequent, all three windows, moving windows of 1 to '
        '800 days; a case counts when clusters, flags, chains and retained events were compared with recomputed distances and times')


def gen(g):
    return {'rows': declust.catalogue(g), 'window': g.pick('GardnerKnopoff', 'Gruenthal', 'Uhrhammer', None),
            'days': g.pick(None, 60.0, 30.0, 10.0, 365.0, g.int(1, 400) + .01, g.int(1, 400) - .01, g.real(1, 800))}


def reach(e, members, y, tw, sign):
    """events of the cluster linked to e by steps of at most tw in the direction of sign"""
    seen, todo = {e}, [e]
    while todo:
        k = todo.pop()
        for i in members:
            if i not in seen and -declust.EPS <= sign * (y[i] - y[k]) <= tw + declust.EPS:
                seen.add(i)
                todo.append(i)
    return seen


def run(case):
    from mtoolkit.scientific.declustering import afteran_decluster
    rows, E = case['rows'], declust.EPS
    mat = declust.matrix(rows)
    kw = {}
    if case['window']:
        kw['window_opt'] = case['window']
    if case['days'] is not None:
        kw['time_window'] = case['days']
    before = mat.copy()
    vcl, vmain, flag = afteran_decluster(mat, **kw)
    mains = declust.partition(rows, mat, before, vcl, vmain, flag, 'afteran_decluster')
    if not rows:
        return
    d, y = declust.distances(rows), declust.years(rows)
    sp = declust.windows(case['window'], rows)[0]
    tw = (60. if case['days'] is None else case['days']) / 365.
    n = len(rows)
    for c, e in mains.items():
        mem = [i for i in range(n) if vcl[i] == c]
        for i in mem:
            need(rows[i][5] <= rows[e][5], 'event %d of cluster %d is larger than its main shock %d', i, c, e)
            need(d[e, i] <= sp[e] + 1e-4, 'event %d is %s km from its main shock %d, window %s', i, d[e, i], e, sp[e])
        for s in (1, -1):
            part = [i for i in mem if flag[i] == s]
            r = reach(e, part, y, tw, s)
            for i in part:
                need(i in r, 'event %d (flag %d) is not linked to its main shock %d by steps within the moving window', i, s, e)
    for e in range(n):
        for i in range(n):
            if vcl[e] == 0 and vcl[i] == 0 and rows[e][5] > rows[i][5]:
                need(not (d[e, i] <= sp[e] - 1e-4 and abs(y[i] - y[e]) <= tw - E),
                     'events %d and %d belong to no cluster although the smaller one is within the windows of the other', e, i)
