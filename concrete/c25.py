from fractions import Fraction
from .base import *

RULE = ('parameter lists of 1 to 4 values with correct and incorrect weights, models and values, creation by name with '
        'any subset of the parameters, comparisons, and creations repeated; a case counts when all outcomes were compared')

NAMES = {'Active Shallow Crust': ('001', [30.0], [1.25E-5]), 'Subduction Interface': ('002', [49.0], [1.25E-5]),
         'Subction Intraslab': ('003', [49.0], [1.25E-5]), 'Stable Continental': ('004', [29.0], [1.0E-4]),
         'Volcanic': ('005', [29.0], [1.25E-5])}


def weights(g, n, good):
    k = [g.int(0, 10) for _ in range(n)]
    if not sum(k):
        k[0] = 1
    if g.chance(0.5):
        w = [round(x / float(sum(k)), 4) for x in k]
        w[-1] = 1 - sum(w[:-1])
    else:
        w = [x / float(sum(k)) for x in k]
    if not good:
        q = g.int(0, n - 1)
        w[q] += g.pick(0.001, -0.001, 0.1, -0.5, 1.0, 1e-6)
    return w


def one(g, key, good):
    n = g.size(1, 4)
    d = {}
    bad = None if good or g.chance(0.4) else g.pick('w', 'v', 'n')
    if key == 'model':
        d['model'] = [g.pick('Peer', 'WC1994') for _ in range(n)]
        if bad == 'v':
            d['model'][g.int(0, n - 1)] = g.pick('WC', 'peer', '', 'Wells', 'WC1995', 'PeerWC1994', 'eer')
    else:
        d['value'] = [g.pick(1e-5, 30.0, g.real(1e-6, 60)) or 1.0 for _ in range(n)]
        if bad == 'v':
            d['value'][g.int(0, n - 1)] = g.pick(0.0, -1.0, 0, -1e-9)
    d['weight'] = weights(g, n, bad != 'w')
    if bad == 'n':
        if n > 1 and g.chance(0.5):
            d['weight'] = [sum(d['weight'][:2])] + d['weight'][2:]
        else:
            d['weight'] = d['weight'] + [0.0]
    return d


def gen(g):
    good = g.chance(0.5)
    mk = lambda: [one(g, k, good) for k in ('model', 'value', 'value')]
    steps = []
    for _ in range(g.int(1, 4)):
        full = mk()
        steps.append({'name': g.pick(*(sorted(NAMES) + ['Volcanic ', 'Subduction Intraslab', 'volcanic', ''])) if g.chance(0.9) else None,
                      'given': [full[q] if g.chance(0.4) else None for q in range(3)]})
    a = mk()
    b = [dict(x) if g.chance(0.7) else one(g, k, True) for x, k in zip(a, ('model', 'value', 'value'))]
    return {'new': a, 'other': b, 'id': g.pick('001', '006', 'x'), 'id2': g.pick('001', '006', 'x'), 'steps': steps}


def ok(msr, smod, dlr):
    for d, k in ((msr, 'model'), (smod, 'value'), (dlr, 'value')):
        if len(d[k]) != len(d['weight']):
            return False
        s = abs(sum(Fraction(w) for w in d['weight']) - 1)
        if s > Fraction(1, 10 ** 7):
            return False
        if s > Fraction(1, 10 ** 12):
            raise Skip('weights near the tolerance')
    if not all(x in ('Peer', 'WC1994') for x in msr['model']):
        return False
    return all(x > 0 for x in smod['value'] + dlr['value'])


def values(r):
    return [r._region_id, r._msr, r._smod, r._dlr]


def make(f, valid, what):
    import copy
    try:
        r = f()
    except ValueError:
        need(not valid, '%s: valid region rejected', what)
        return None
    need(valid, '%s: invalid region accepted', what)
    return r


def run(case):
    import copy
    from mtoolkit.geo.tectonic_region import TectonicRegionBuilder as T
    regions = []
    for d, i in ((case['new'], case['id']), (case['other'], case['id2'])):
        e = ok(*d)
        keep = copy.deepcopy(d)
        r = make(lambda: T.create_new_tect_region(i, *d), e, 'new region')
        need(d == keep, 'parameters modified')
        if r is not None:
            need(values(r) == [i] + d, 'new region: %s instead of %s', values(r), [i] + d)
            need(r.shear_mod_first_value == d[1]['value'][0], 'shear modulus')
            need(r.disp_length_ratio_first_value == d[2]['value'][0], 'displacement length ratio')
            regions.append(([i] + d, r))
    for p, r in regions:
        for q, s in regions:
            need((r == s) == (p == q), 'equality of %s and %s', p, q)
            need((r != s) == (p != q), 'inequality of %s and %s', p, q)
    for st in case['steps'] + [{'name': k, 'given': [None] * 3} for k in sorted(NAMES)]:
        kw = {}
        for k, x in zip(('msr', 'smod', 'dlr'), st['given']):
            if x is not None:
                kw[k] = copy.deepcopy(x)
        if st['name'] not in NAMES:
            make(lambda: T.create_tect_region_by_name(st['name'], **kw), False, 'name %r' % st['name'])
            continue
        rid, sm, dl = NAMES[st['name']]
        want = [{'model': ['WC1994'], 'weight': [1.0]}, {'value': sm, 'weight': [1.0]}, {'value': dl, 'weight': [1.0]}]
        want = [x if x is not None else w for x, w in zip(st['given'], want)]
        r = make(lambda: T.create_tect_region_by_name(st['name'], **kw), ok(*want), 'region by name')
        if r is not None:
            need(values(r) == [rid] + want, 'region %s: %s instead of %s', st['name'], values(r), [rid] + want)
