"""C25: tectonic regions."""
from .common import *

TR = 'mtoolkit.geo.tectonic_region'
NAMES = {'Active Shallow Crust': ('001', '30.0', '1.25E-5'), 'Subduction Interface': ('002', '49.0', '1.25E-5'),
         'Subction Intraslab': ('003', '49.0', '1.25E-5'), 'Stable Continental': ('004', '29.0', '1.0E-4'),
         'Volcanic': ('005', '29.0', '1.25E-5')}
# up to rounding: sums within 1e-12 of one must be accepted, those further than 1e-7 rejected
NEAR, FAR = F('1E-12'), F('1E-7')


class Params(object):
    """one parameter dictionary: n values (models: text) and k weights"""
    def __init__(self, v, name, key):
        self.n, self.k, self.key = v.int('n_' + name, 1), v.int('k_' + name, 1), key
        self.w = v.array('weight_' + name, self.k)
        if key == 'model':
            f = z3.Function('model_' + name, I, ops.S)
            self.at = lambda i: ops.SStr(f(zi(i)))
        else:
            a = v.array('value_' + name, self.n)
            self.at = lambda i: a.at(i)
        self.d = {key: [Seg(self.n, self.at)], 'weight': [Seg(self.k, lambda i: self.w.at(i))]}

    def consistent(self, tol):
        ok = (lambda i: lor(self.at(i) == 'Peer', self.at(i) == 'WC1994')) if self.key == 'model' else \
            (lambda i: self.at(i) > 0)
        return land(self.n == self.k, forall(self.n, ok), self.sums(tol))

    def sums(self, tol):
        s = self.w.at(num(0)) + mkred('sum', 0, self.k - 1, lambda i: self.w.at(num(i) + 1))
        return absv(s - 1) <= tol


def three(v, tag=''):
    return [Params(v, tag + q, key) for q, key in (('msr', 'model'), ('smod', 'value'), ('dlr', 'value'))]


def holds(v, name, r, rid, ds):
    v.ensure(name + ': identifier', ops.eq(r._region_id, rid))
    for q, d in zip(('_msr', '_smod', '_dlr'), ds):
        v.ensure(name + ': ' + q, ops.truth(ops.eq(getattr(r, q), d)))
    v.ensure(name + ': first shear modulus', ops.eq(r.shear_mod_first_value, ops.getitem(ds[1]['value'], 0)))
    v.ensure(name + ': first displacement length ratio', ops.eq(r.disp_length_ratio_first_value, ops.getitem(ds[2]['value'], 0)))


def new(v):
    v.world()
    m = v.load(TR)
    P = three(v)
    ds = [p.d for p in P]
    fz = v.freeze(*ds)
    rid = v.str('region_id')
    near, far = [land(*[p.consistent(t) for p in P]) for t in (NEAR, FAR)]
    try:
        r = m.TectonicRegionBuilder.create_new_tect_region(rid, *ds)
        v.ensure('a constructed region is consistent', far)
        holds(v, 'new region', r, rid, [p.d for p in P])
    except ValueError:
        v.ensure('a rejected region is not consistent', not_(near))
    v.unchanged('parameters', fz)


def lists(model):
    return {'model' if model else 'value': None, 'weight': [F('1.0')]}


def documented(name):
    rid, sm, dl = NAMES[name]
    return rid, [{'model': ['WC1994'], 'weight': [F('1.0')]}, {'value': [F(sm)], 'weight': [F('1.0')]},
                 {'value': [F(dl)], 'weight': [F('1.0')]}]


def by_name(name, given):
    def run(v):
        v.world()
        m = v.load(TR)
        b = m.TectonicRegionBuilder
        P = three(v)
        kw, near, far = {}, True, True
        rid, want = documented(name)
        for q, (k, p) in enumerate(zip(('msr', 'smod', 'dlr'), P)):
            if given[q]:
                kw[k], want[q] = p.d, p.d
                near, far = land(near, p.consistent(NEAR)), land(far, p.consistent(FAR))
        fz = v.freeze(*kw.values())
        try:
            r = b.create_tect_region_by_name(name, **kw)
            v.ensure('a constructed region is consistent', far)
            holds(v, 'region by name', r, rid, want)
            v.ensure('type of the region', type(r).__name__ == name.replace(' ', '').replace('Subction', 'Subduction'))
        except ValueError:
            v.ensure('a rejected region is not consistent', not_(near))
        v.unchanged('parameters', fz)
        for other in sorted(NAMES):
            rid, want = documented(other)
            holds(v, 'a later %s' % other, b.create_tect_region_by_name(other), rid, want)
    return run


def unknown(v):
    v.world()
    m = v.load(TR)
    name = v.str('name')
    for k in NAMES:
        v.assume(ops.truth(ops.eq(name, k)) == False)
    try:
        m.TectonicRegionBuilder.create_tect_region_by_name(name)
        v.ensure('an unknown name is rejected', False)
    except ValueError:
        v.ensure('an unknown name is rejected', True)


def equality(v):
    v.world()
    m = v.load(TR)
    A, C = three(v, 'a_'), three(v, 'b_')
    for p in A + C:
        v.assume(p.consistent(NEAR))
    i, j = v.str('id_a'), v.str('id_b')
    a = m.TectonicRegionBuilder.create_new_tect_region(i, *[p.d for p in A])
    b = m.TectonicRegionBuilder.create_new_tect_region(j, *[p.d for p in C])
    same = lambda p, q: land(p.n == q.n, forall(p.n, lambda x: ops.truth(ops.eq(p.at(x), q.at(x)))),
                             forall(p.n, lambda x: p.w.at(x) == q.w.at(x)))
    e = land(ops.truth(ops.eq(i, j)), *[same(p, q) for p, q in zip(A, C)])
    v.ensure('equal exactly when all is equal', implies(e, ops.truth(a == b)))
    v.ensure('equal only when all is equal', implies(ops.truth(a == b), e))
    v.ensure('different exactly when not equal', implies(e, ops.not_(ops.truth(a != b))))
    v.ensure('different only when not equal', implies(not_(e), ops.truth(a != b)))


def combos():
    for x in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
        yield x


FN = [TR + ':TectonicRegion.' + q for q in ('__init__', 'check_msr_weight', 'check_msr', 'check_values', 'check_weights')]
UNITS = [Unit('C25', 'TectonicRegion construction', new, FN + [TR + ':TectonicRegionBuilder.create_new_tect_region']),
         Unit('C25', 'TectonicRegion equality', equality, [TR + ':TectonicRegion.__eq__', TR + ':TectonicRegion.__ne__']),
         Unit('C25', 'unknown region name', unknown, [TR + ':TectonicRegionBuilder.create_tect_region_by_name'])]
for nm in sorted(NAMES):
    for gv in combos():
        UNITS.append(Unit('C25', '%s, given %s' % (nm, gv), by_name(nm, gv),
                          [TR + ':TectonicRegionBuilder.create_tect_region_by_name', TR + ':%s.__init__' % nm]))
