"""C26: magnitude frequency distribution of a fault."""
from .common import *


class Fault(object):
    """a fault by the contract of C24: positive width, area not negative"""
    def __init__(self, v):
        self.w, self.a = v.real('width'), v.real('area', 0)
        v.assume(self.w > 0)

    def get_width(self):
        return self.w

    def get_area(self):
        return self.a


class Region(object):
    """a tectonic region by the contract of C25: positive parameters"""
    def __init__(self, v):
        self.shear_mod_first_value, self.disp_length_ratio_first_value = v.real('shear'), v.real('ratio')
        v.assume(land(self.shear_mod_first_value > 0, self.disp_length_ratio_first_value > 0))


MEDIAN = z3.Function('WC1994_median_mag', Rl, Rl, Rl)


class Wells(object):
    def get_median_mag(self, area, rake):
        return mknum(MEDIAN(toreal(area).real(), toreal(rake).real()))


def world(v):
    v.world()
    lib.HOOKS['WC1994'] = Wells
    return v.load(FC)


def reference(fault, reg, slip, aseis, b, mmin, w, mmax, scaling):
    beta = sqrt(reg.disp_length_ratio_first_value * p10(scaling[0]) /
                (reg.shear_mod_first_value * num(10) ** 10 * fault.w * num(10) ** 5))
    dbar, bbar = scaling[1] * ln(num(10)), b * ln(num(10))
    s = slip * (1 - aseis)

    def N(m):
        return (dbar - bbar) / bbar * (s / 10 / beta) * exp(bbar * (mmax - m)) * exp(-(dbar / 2) * mmax)
    return lambda i: N(mmin + (num(i) - F('0.5')) * w) - N(mmin + (num(i) + F('0.5')) * w)


def mfd(mode, scaled):
    def run(v):
        m = world(v)
        fault, reg = Fault(v), Region(v)
        slip, aseis, b, mmin, w = v.real('slip'), v.real('aseismic'), v.real('b'), v.real('mmin'), v.real('binwidth')
        v.assume(land(w > 0, b > 0))
        kw, sc = {}, (F('16.05'), F('1.5'))
        if scaled:
            sc = (v.real('scaling0'), v.real('scaling1', 0))
            kw['moment_scaling'] = sc
        if mode != 'rake':
            mmax = kw['max_mag'] = v.real('mmax')
        if mode != 'max':
            kw['rake'] = v.real('rake')
        if mode == 'rake':
            mmax = mknum(MEDIAN(fault.a.real(), kw['rake'].real()))
        v.assume(mmin <= mmax)
        try:
            r = m.get_mfd(slip, aseis, reg, fault, b, mmin, w, **kw)
        except (AssertionError, ValueError):
            v.ensure('rejected only for a non positive slip or a wrong aseismic proportion',
                     not_(land(slip > 0, aseis >= 0, aseis < 1)))
            return
        v.ensure('accepted only with a positive slip and an aseismic proportion in [0, 1)',
                 land(slip > 0, aseis >= 0, aseis < 1))
        n = ceil((mmax - mmin) / w)
        v.ensure('as many bins as needed', ops.len_(r) == n)
        e = reference(fault, reg, slip, aseis, b, mmin, w, mmax, sc)
        v.ensure_all('rate of each bin', n, lambda i: ops.seq_index(r, i) == e(i))
    return run


UNITS = [Unit('C26', 'get_mfd, %s%s' % (q, ' and moment scaling' if s else ''), mfd(q, s),
              [FC + ':get_mfd', FC + ':_cumulative_value'])
         for q, s in (('max', False), ('rake', False), ('both', False), ('both', True), ('rake', True))]
