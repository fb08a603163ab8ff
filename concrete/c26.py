import sys
import types
import numpy as np
from .base import *

RULE = ('slips, aseismic proportions inside and outside their ranges, faults and regions built by the real classes, with '
        'a given maximum magnitude, with a rake, with both, default and other moment scalings; a case counts when '
        'acceptance and every rate were compared with the formula')


class WC1994(object):
    def get_median_mag(self, area, rake):
        return 5.5 + 0.2 * np.log10(area) + 0.003 * rake


for k in ('nhlib', 'nhlib.scalerel', 'nhlib.scalerel.wc1994'):
    sys.modules[k] = types.ModuleType(k)
sys.modules['nhlib'].scalerel = sys.modules['nhlib.scalerel']
sys.modules['nhlib.scalerel'].wc1994 = sys.modules['nhlib.scalerel.wc1994']
sys.modules['nhlib.scalerel.wc1994'].WC1994 = WC1994


def gen(g):
    mode = g.pick('max', 'rake', 'both')
    mmin = g.real(3, 6, g.pick(1, 2, None))
    c = {'slip': g.pick(g.real(0.01, 20), g.real(0.01, 20), 1, 0.0, -1.0) if g.chance(0.3) else g.real(0.01, 20),
         'aseis': g.pick(0.0, 0, 0.5, 1.0, -0.1, 1.2, 0.999, g.real(0, 1)) if g.chance(0.4) else g.real(0, 0.95),
         'b': g.real(0.4, 1.4), 'mmin': mmin, 'w': g.pick(0.1, 0.2, 0.05, g.real(0.03, 1)),
         'mmax': None if mode == 'rake' else mmin + g.pick(0.0, g.real(0, 3), g.real(0, 3)) if g.chance(0.9) else 0.0,
         'rake': None if mode == 'max' else g.pick(0.0, 90.0, -45.0, g.real(-180, 180)),
         'scaling': g.pick(None, None, [16.05, 1.5], [15.5, 1.4], [g.real(14, 17), g.real(1, 2)]),
         'dip': g.real(5, 90), 'up': g.real(0, 5), 'thick': g.real(1, 20), 'len': g.real(0.1, 2),
         'smod': [g.real(20, 60), g.real(20, 60)], 'dlr': [g.real(1e-5, 1e-4), 1e-5]}
    if mode == 'rake':
        c['mmax'] = None
    if c['mmax'] == 0.0:
        c['mmin'] = -1.0
    return c


def run(case):
    from mtoolkit.scientific.fault_calculator import get_mfd
    from mtoolkit.geo.simple_fault import SimpleFaultGeo
    from mtoolkit.geo.tectonic_region import TectonicRegionBuilder as T
    f = SimpleFaultGeo([(10.0, 45.0), (10.0 + case['len'], 45.2)], case['up'], case['up'] + case['thick'], case['dip'])
    if case['mmax'] is None and case['rake'] is None:
        raise Skip('no magnitude')
    reg = T.create_new_tect_region('x', {'model': ['Peer'], 'weight': [1.0]}, {'value': case['smod'], 'weight': [0.5, 0.5]},
                                   {'value': case['dlr'], 'weight': [0.5, 0.5]})
    kw = {}
    mmax = case['mmax']
    if mmax is not None:
        kw['max_mag'] = mmax
    else:
        mmax = WC1994().get_median_mag(f.get_area(), case['rake'])
    if case['rake'] is not None:
        kw['rake'] = case['rake']
    sc = (16.05, 1.5)
    if case['scaling'] is not None:
        sc = kw['moment_scaling'] = tuple(case['scaling'])
    slip, aseis, b, mmin, w = (case[k] for k in ('slip', 'aseis', 'b', 'mmin', 'w'))
    if mmax < mmin:
        raise Skip('empty range')
    ok = slip > 0 and 0 <= aseis < 1
    try:
        r = get_mfd(slip, aseis, reg, f, b, mmin, w, **kw)
    except (AssertionError, ValueError) as e:
        need(not ok, 'valid slip rejected: %s', e)
        return
    need(ok, 'slip %s with aseismic proportion %s accepted', slip, aseis)
    q = (mmax - mmin) / w
    if abs(q - round(q)) < 1e-6 and not (q == 0 and mmax == 0):
        raise Skip('range is a multiple of the width')
    n = int(np.ceil(q))
    need(len(r) == n, '%d rates instead of %d', len(r), n)
    width = case['thick'] / np.sin(np.radians(case['dip']))
    beta = np.sqrt(case['dlr'][0] * 10.0 ** sc[0] / (case['smod'][0] * 1e10 * width * 1e5))
    d, bb = sc[1] * np.log(10.0), b * np.log(10.0)
    s = slip * (1 - aseis)
    N = lambda m: (d - bb) / bb * (s / 10 / beta) * np.exp(bb * (mmax - m)) * np.exp(-d / 2 * mmax)
    e = [N(mmin + (i - 0.5) * w) - N(mmin + (i + 0.5) * w) for i in range(n)]
    near(np.array(r, float), np.array(e, float), 'rates', 1e-6, 1e-12 * (abs(e[0]) if e else 1))
