"""C11: great-circle distances."""
from .common import *


def hav(a, b, c, d, radius):
    """reference: haversine distance between (lon a, lat b) and (lon c, lat d), radians"""
    h = sin((b - d) / 2) ** 2 + cos(b) * cos(d) * sin((a - c) / 2) ** 2
    return 2 * radius * atan2(sqrt(h), sqrt(1 - h))


def deg(x):
    return x * PI / 180


def vectors(v, radians):
    v.world()
    m = v.load(CU)
    n, k = v.int('n', 1), v.int('m', 1)
    R = v.real('R', 0)
    A = [v.array('lon1', n), v.array('lat1', n), v.array('lon2', k), v.array('lat2', k)]
    lim = PI / 2 if radians else num(90)
    for q, sz in ((A[1], n), (A[3], k)):
        v.assume_all(sz, lambda i: land(q.at(i) >= 0 - lim, q.at(i) <= lim))
    fz = v.freeze(*A)
    d = m.haversine(*A, radians=radians, earth_rad=R)
    v.shape_is('table', d, n, k)
    v.unchanged('coordinate vectors', fz)
    f = (lambda x: x) if radians else deg
    at = lambda i, j: [f(A[0].at(i)), f(A[1].at(i)), f(A[2].at(j)), f(A[3].at(j))]
    v.ensure_all2('entry is the haversine distance of the pair', n, k,
                  lambda i, j: d.at(i, j) == hav(*at(i, j), R))


def scalars(v):
    v.world()
    m = v.load(CU)
    R = v.real('R', 0)
    x = [v.real(q) for q in ('lon1', 'lat1', 'lon2', 'lat2')]
    d = m.haversine(*x, earth_rad=R)
    v.shape_is('table', d, 1, 1)
    v.ensure('single pair', d.at(0, 0) == hav(*[deg(q) for q in x], R))
    n = v.int('n', 1)
    lon, lat = v.array('lon', n), v.array('lat', n)
    fz = v.freeze(lon, lat)
    d = m.haversine(lon, lat, x[2], x[3], earth_rad=R)
    v.shape_is('locations and one point', d, n, 1)
    v.ensure_all('locations and one point', n,
                 lambda i: d.at(i, 0) == hav(deg(lon.at(i)), deg(lat.at(i)), deg(x[2]), deg(x[3]), R))
    d = m.haversine(x[0], x[1], lon, lat, earth_rad=R)
    v.shape_is('one point and locations', d, 1, n)
    v.ensure_all('one point and locations', n,
                 lambda i: d.at(0, i) == hav(deg(x[0]), deg(x[1]), deg(lon.at(i)), deg(lat.at(i)), R))
    v.unchanged('coordinates', fz)


def lemmas(v):
    v.world()
    m = v.load(CU)
    x = [v.real(q) for q in ('lon1', 'lat1', 'lon2', 'lat2')]
    for q in (x[1], x[3]):
        v.assume(land(q >= -90, q <= 90))
    R = v.real('R', 0)
    g = lambda a, b, c, d: m.haversine(a, b, c, d, earth_rad=R).at(0, 0)
    v.ensure('distance to itself is 0', g(x[0], x[1], x[0], x[1]) == 0)
    v.ensure('symmetric', g(*x) == g(x[2], x[3], x[0], x[1]))
    v.ensure('not negative', g(*x) >= 0)
    v.ensure('at most half the circumference', g(*x) <= PI * R)
    # the default radius is the mean earth radius in use
    v.ensure('default radius', m.haversine(*x).at(0, 0) == hav(*[deg(q) for q in x], F('6371.227')))


UNITS = [Unit('C11', 'haversine (degrees)', lambda v: vectors(v, False), [CU + ':haversine']),
         Unit('C11', 'haversine (radians)', lambda v: vectors(v, True), [CU + ':haversine']),
         Unit('C11', 'haversine (single locations)', scalars, [CU + ':haversine']),
         Unit('C11', 'haversine lemmas', lemmas, [CU + ':haversine'])]
