import numpy as np
from .base import *

RULE = ('two sets of 1 to 6 locations (vectors or single numbers), degrees or radians, several radii; a case counts '
        'when the complete table was compared with the haversine formula')


def gen(g):
    c = {}
    for k in '12':
        n = g.size(1, 6)
        sc = g.chance(0.25)
        lon, lat = g.reals(n, -180, 180, g.pick(None, 1, 3)), g.reals(n, -90, 90, g.pick(None, 1, 3))
        if k == '2' and g.chance(0.3):
            lon[0], lat[0] = (c['lon1'], c['lat1']) if not isinstance(c['lon1'], list) else (c['lon1'][0], c['lat1'][0])
        if g.chance(0.1):
            lat[0] = g.pick(-90.0, 90.0, 0.0)
        c['lon' + k], c['lat' + k] = (lon[0], lat[0]) if sc else (lon, lat)
    c['radians'] = g.chance(0.3)
    c['R'] = g.pick(None, None, 6371.0, 1.0, g.real(1, 7000))
    return c


def ref(lon1, lat1, lon2, lat2, R):
    a, b, c, d = (np.radians(np.atleast_1d(arr(x))) for x in (lon1, lat1, lon2, lat2))
    h = np.sin((b[:, None] - d[None, :]) / 2) ** 2 + np.cos(b)[:, None] * np.cos(d)[None, :] * np.sin(
        (a[:, None] - c[None, :]) / 2) ** 2
    h = np.clip(h, 0, 1)
    return 2 * R * np.arctan2(np.sqrt(h), np.sqrt(1 - h))


def run(case):
    from mtoolkit.scientific.catalogue_utilities import haversine
    R = 6371.227 if case['R'] is None else case['R']
    x = [case[k] for k in ('lon1', 'lat1', 'lon2', 'lat2')]
    mk = lambda v: arr(v) if isinstance(v, list) else float(v)
    args = [mk(v) for v in x]
    if case['radians']:
        args = [np.radians(v) for v in args]
    kw = {} if case['R'] is None else {'earth_rad': R}
    if case['radians']:
        kw['radians'] = True
    before = [np.copy(v) for v in args]
    r = haversine(*args, **kw)
    unchanged('haversine', before, args)
    e = ref(*(x + [R]))
    near(r, e, 'distance table', 1e-7, 1e-6 * R)
    need(np.all(r >= 0) and np.all(r <= np.pi * R * (1 + 1e-12)), 'distance out of range')
    r2 = haversine(args[2], args[3], args[0], args[1], **kw)
    near(r2.T, r, 'distances exchanged', 1e-9, 1e-7 * R)
