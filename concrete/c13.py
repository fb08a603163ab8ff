import numpy as np
from .base import *

RULE = ('0 to 10 events against 0 to 6 completeness categories with equal years and magnitudes frequent; a case counts '
        'when the vector was compared with the definition, for the categories in both orders')


def gen(g):
    n, k = g.int(0, 10), g.int(0, 6)
    ys = [float(g.int(1900, 1910)) for _ in range(4)] + [g.real(1800, 2012)]
    ms = [round(g.real(3, 8), 1) for _ in range(4)] + [g.real(0, 9)]
    p = lambda xs, q: [g.r.choice(xs) for _ in range(q)]
    return {'year': p(ys, n), 'mw': p(ms, n), 'cyear': p(ys, k), 'cmw': p(ms, k),
            'flag': [g.pick(0, 0, 0, 1, -1, 2) for _ in range(n)]}


def run(case):
    from mtoolkit.scientific.completeness import selected_eq_flag_vector
    mk = lambda: [arr(case['year']), arr(case['mw']), arr(case['cyear']), arr(case['cmw']), np.array(case['flag'], int)]
    a = mk()
    r = selected_eq_flag_vector(*a)
    unchanged('selected_eq_flag_vector', mk(), a)
    e = [1 if f != 0 or any(y < cy and m < cm for cy, cm in zip(case['cyear'], case['cmw'])) else 0
         for y, m, f in zip(case['year'], case['mw'], case['flag'])]
    same_array(r, np.array(e, int), 'selection vector')
    a = mk()
    a[2], a[3] = a[2][::-1], a[3][::-1]
    same_array(selected_eq_flag_vector(*a), np.array(e, int), 'selection vector, categories reversed')
