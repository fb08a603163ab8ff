import numpy as np
from .base import *
from . import declust

RULE = ('0 to 20 events around 1 to 3 places within 0 to 20 years, ties and duplicates frequent, all three windows, foreshock proportion 0 '
        'to 2; a case counts when clusters, flags and retained events were compared with recomputed distances and windows')


def gen(g):
    return {'rows': declust.catalogue(g), 'window': g.pick('GardnerKnopoff', 'Gruenthal', 'Uhrhammer', None),
            'fs': g.pick(None, 0.0, 0.0, 1.0, 0.5, g.real(0, 2))}


def run(case):
    from mtoolkit.scientific.declustering import gardner_knopoff_decluster
    rows, E = case['rows'], declust.EPS
    mat = declust.matrix(rows)
    kw = {}
    if case['window']:
        kw['window_opt'] = case['window']
    if case['fs'] is not None:
        kw['fs_time_prop'] = case['fs']
    before = mat.copy()
    vcl, vmain, flag = gardner_knopoff_decluster(mat, **kw)
    mains = declust.partition(rows, mat, before, vcl, vmain, flag, 'gardner_knopoff_decluster')
    if not rows:
        return
    d, y = declust.distances(rows), declust.years(rows)
    sp, tm = declust.windows(case['window'], rows)
    fs = case['fs'] or 0.0
    n = len(rows)
    for i in range(n):
        if flag[i] != 0:
            e = mains[int(vcl[i])]
            dt = y[i] - y[e]
            what = 'event %d removed with flag %d by main shock %d: ' % (i, flag[i], e)
            need(d[e, i] <= sp[e] + 1e-4, what + 'distance %s, window %s', d[e, i], sp[e])
            if rows[i][:3] == rows[e][:3]:
                need(flag[i] == 1, what + 'of the same day')
            if flag[i] == 1:
                need(-E <= dt <= tm[e] + E, what + 'time %s, window %s', dt, tm[e])
            else:
                need(-tm[e] * fs - E <= dt <= E, what + 'time %s, window %s', dt, -tm[e] * fs)
    for e in range(n):
        for i in range(n):
            if flag[e] == 0 and flag[i] == 0 and i != e and rows[e][5] > rows[i][5]:
                dt = y[i] - y[e]
                need(not (d[e, i] <= sp[e] - 1e-4 and -tm[e] * fs + (E if fs else -0.0) <= dt <= tm[e] - E and (dt > E or fs or rows[e][:3] == rows[i][:3])),
                     'event %d is retained within the windows of the larger retained event %d', i, e)
