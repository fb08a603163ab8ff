"""C24: simple fault geometry."""
from .common import *
from .c11 import hav as hav_

SF = 'mtoolkit.geo.simple_fault'


def trace_of(v, n):
    lon, lat = v.array('lon', n), v.array('lat', n)
    return lon, lat, [Seg(n, lambda i: (lon.at(i), lat.at(i)))]


def construct(v):
    v.world()
    m = v.load(SF)
    n = v.int('n', 0)
    lon, lat, tr = trace_of(v, n)
    up, lo, dip = v.real('upper'), v.real('lower'), v.real('dip')
    fz = v.freeze(tr)
    valid = land(n >= 2, forall(n, lambda i: land(lon.at(i) >= -180, lon.at(i) <= 180, lat.at(i) >= -90, lat.at(i) <= 90)),
                 up >= 0, up < lo, dip > 0, dip <= 90)
    try:
        m.SimpleFaultGeo(tr, up, lo, dip)
        v.ensure('a constructed fault is valid', valid)
    except ValueError:
        v.ensure('a rejected fault is invalid', not_(valid))
    v.unchanged('trace', fz)


def dimensions(v):
    v.world()
    m = v.load(SF)
    n = v.int('n', 2)
    lon, lat, tr = trace_of(v, n)
    v.assume_all(n, lambda i: land(lon.at(i) >= -180, lon.at(i) <= 180, lat.at(i) >= -90, lat.at(i) <= 90))
    up, lo, dip = v.real('upper', 0), v.real('lower'), v.real('dip')
    v.assume(land(up < lo, dip > 0, dip <= 90))
    f = m.SimpleFaultGeo(tr, up, lo, dip)
    fz = v.freeze(tr, f)
    rad = PI / 180
    d = lambda i: hav_(lon.at(i) * rad, lat.at(i) * rad, lon.at(num(i) + 1) * rad, lat.at(num(i) + 1) * rad, 6371)
    length = mkred('sum', 0, n - 1, d)
    width = (lo - up) / sin(dip * rad)
    L, W, A = f.get_length(), f.get_width(), f.get_area()
    v.ensure('length: sum of the great-circle distances', L == length)
    v.ensure('width: depth difference / sine of the dip', W == width)
    v.ensure('area: length times width', A == length * width)
    v.lemma('the sine of the dip is positive', sin(dip * rad) > 0)
    v.ensure('width is positive', W > 0)
    v.lemma('distances are not negative', forall(n - 1, lambda i: d(i) >= 0))
    v.lemma('length is not negative', L >= 0)
    v.ensure('area is not negative', A >= 0)
    v.unchanged('trace and fault', fz)


UNITS = [Unit('C24', 'SimpleFaultGeo construction', construct, [SF + ':SimpleFaultGeo.__init__', SF + ':ensure']),
         Unit('C24', 'SimpleFaultGeo dimensions', dimensions,
              [SF + ':SimpleFaultGeo.' + q for q in ('get_length', 'get_width', 'get_area')])]
