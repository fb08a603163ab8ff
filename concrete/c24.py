import numpy as np
from .base import *
from .c11 import ref

RULE = ('traces of 0 to 6 points, some out of range or on the limits, depths and dips inside, on and outside their '
        'ranges; a case counts when acceptance and, if accepted, length, width and area were compared')


def gen(g):
    n = g.size(0, 6)
    w = 0 if g.chance(0.6) else 1
    lon = [g.real(-180, 180, g.pick(None, 1)) for _ in range(n)]
    lat = [g.real(-90, 90, g.pick(None, 1)) for _ in range(n)]
    if n and w and g.chance(0.5):
        q = g.int(0, n - 1)
        if g.chance(0.5):
            lon[q] = g.pick(-180.0, 180.0, -180.5, 181.0, 200.0, -190.0, 180.0001)
        else:
            lat[q] = g.pick(-90.0, 90.0, 90.1, -90.0001, -120.0, 100.0)
    if n > 1 and g.chance(0.3):
        q = g.int(1, n - 1)
        lon[q], lat[q] = lon[q - 1], lat[q - 1]
    if n > 1 and g.chance(0.3):
        q = g.int(1, n - 1)
        lon[q] = lon[q - 1]
    if n > 2 and g.chance(0.4):         # back to an earlier point
        q = g.int(2, n - 1)
        o = g.int(0, q - 1)
        lon[q], lat[q] = lon[o], lat[o]
    up = g.pick(0.0, 0, g.real(0, 20), g.real(0, 20))
    lo = up + g.real(0.01, 30)
    dip = g.pick(90.0, 90, 30.0, g.real(0.5, 90))
    if w:
        k = g.int(0, 4)
        up, lo, dip = [(up, lo, dip), (g.pick(-1.0, -0.001, 0.0), lo, dip), (up, g.pick(up, up - 0.5, 0.0, -1.0), dip),
                       (up, lo, g.pick(0.0, -5.0, 90.001, 91, 180.0, 0.001)), (0.0, 0.0, dip)][k]
    return {'trace': [list(p) for p in zip(lon, lat)], 'up': up, 'lo': lo, 'dip': dip}


def run(case):
    from mtoolkit.geo.simple_fault import SimpleFaultGeo
    tr = [tuple(p) for p in case['trace']]
    keep = list(tr)
    up, lo, dip = case['up'], case['lo'], case['dip']
    valid = len(tr) >= 2 and all(-180 <= a <= 180 and -90 <= b <= 90 for a, b in tr) and 0 <= up < lo and 0 < dip <= 90
    try:
        f = SimpleFaultGeo(tr, up, lo, dip)
    except ValueError as e:
        need(not valid, 'valid fault rejected: %s', e)
        return
    need(valid, 'invalid fault accepted')
    need(tr == keep, 'trace modified')
    d = [ref(p[0], p[1], q[0], q[1], 6371.0)[0][0] for p, q in zip(tr, tr[1:])]
    for again in range(2):
        near(f.get_length(), sum(d), 'length', 1e-7, 1e-5)
        w = (lo - up) / np.sin(np.radians(dip))
        near(f.get_width(), w, 'width')
        near(f.get_area(), sum(d) * w, 'area', 1e-7, 1e-4)
        need(f.get_width() > 0 and f.get_area() >= 0, 'negative width or area')
    need(tr == keep, 'trace modified')
