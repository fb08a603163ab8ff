import copy
import inspect
import numpy as np
from .base import *

RULE = ('catalogues of 1 to 12 read events with arbitrary values and blank optional cells, then 1 to 6 steps in any order '
        '(event matrix, default values, Gardner-Knopoff, Afteran, Stepp, selection) with recorded algorithms that return fresh '
        'tables, and the real algorithms of the context; a case counts when the arguments and the whole context were compared after every step')
COLS = ['year', 'month', 'day', 'longitude', 'latitude', 'Mw', 'sigmaMw']
STEPS = ['gardner_knopoff', 'afteran', 'stepp', 'create_selected_eq_vector', 'create_default_values', 'create_catalog_matrix']


def gen(g):
    n = g.size(1, 12)
    return {'events': [[g.pick(1, 1990, -200, g.int(-3000, 2011)), g.int(1, 12), g.int(1, 31), g.real(-180, 180), g.real(-90, 90),
                        g.real(-1, 9), g.pick(0.0, g.real(0, 1))] for _ in range(n)],
            'steps': ['create_catalog_matrix', 'create_default_values'] + [g.r.choice(STEPS) for _ in range(g.int(0, 6))],
            'seed': g.int(0, 10 ** 6),
            'par': [g.real(0, 1), g.real(1, 100), g.real(0.05, 1), g.int(1, 10), g.real(0, 1), g.pick(True, False)]}


def snap(v):
    return {k: copy.deepcopy(x) for k, x in v.__dict__.items() if k != 'map_sc'}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return a == b


def outcome(f, a):
    try:
        r = f(*copy.deepcopy(a))
    except Exception as e:
        return (type(e).__name__,)
    return tuple(r) if isinstance(r, tuple) else (r,)


def own_algorithms(real, wanted):
    """every step's algorithm is the one it is named after"""
    for name, f, a in wanted:
        need(name in real, 'no algorithm %s', name)
        np.random.seed(7)
        x = outcome(real[name], a)
        np.random.seed(7)
        y = outcome(f, a)
        need(len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)), 'the algorithm of %s yields %s instead of %s', name, short(x), short(y))


def run(case):
    import mtoolkit.workflow as W
    import mtoolkit.jobs as J
    import mtoolkit.eqcatalog as E
    r = np.random.RandomState(case['seed'])
    c = W.Context()
    real = dict(c.map_sc)
    calls = []

    def record(name):
        def f(*a, **k):
            b = inspect.signature(real[name]).bind(*a, **k)
            b.apply_defaults()
            calls.append((name, [copy.deepcopy(x) if isinstance(x, np.ndarray) else x for x in b.arguments.values()]))
            n = len(c.catalog_matrix)
            if name in ('gardner_knopoff', 'afteran'):
                calls[-1] += ((r.randint(0, 4, n), r.rand(r.randint(1, n + 1), 7), r.randint(-1, 2, n)),)
            elif name == 'stepp':
                calls[-1] += (r.rand(r.randint(1, 5), 2),)
            else:
                calls[-1] += (r.randint(0, 2, n),)
            return calls[-1][2]
        return f
    for k in ('gardner_knopoff', 'afteran', 'stepp', 'select_eq_vector'):
        need(k in real, 'no algorithm %s', k)
        c.map_sc[k] = record(k)
    import mtoolkit.scientific.declustering as D
    import mtoolkit.scientific.completeness as P
    e = np.column_stack([r.randint(1960, 2000, 8), r.randint(1, 13, 8), r.randint(1, 29, 8), r.rand(8), r.rand(8),
                         4 + np.round(3 * r.rand(8), 1), r.rand(8)])
    t = np.array([[1970., 4.], [1950., 5.]])
    own_algorithms(real, [('gardner_knopoff', D.gardner_knopoff_decluster, [e, 'GardnerKnopoff', 0.5]),
                          ('afteran', D.afteran_decluster, [e, 'Gruenthal', 60.]),
                          ('stepp', P.stepp_analysis, [e[:, 0], e[:, 5], 0.5, 5, 0.2, True]),
                          ('select_eq_vector', P.selected_eq_flag_vector, [e[:, 0], e[:, 5], t[:, 0], t[:, 1], r.randint(-1, 2, 8)])])
    p = case['par']
    w1, w2 = object(), object()
    c.eq_catalog = []
    for i, e in enumerate(case['events']):
        d = dict((k, '' if r.rand() < 0.3 else float(r.randint(0, 90))) for k in E.FIELDNAMES)
        d.update(zip(COLS, e))
        c.eq_catalog.append(d)
    c.config = {'GardnerKnopoff': {'time_dist_windows': 'w1', 'foreshock_time_window': p[0]},
                'Afteran': {'time_dist_windows': 'w2', 'time_window': p[1]},
                'Stepp': {'magnitude_windows': p[2], 'time_window': p[3], 'sensitivity': p[4], 'increment_lock': p[5]}}
    for s in case['steps']:
        old = snap(c)
        del calls[:]
        getattr(J, s)(c)
        new = snap(c)
        want = dict(old)
        if s == 'create_catalog_matrix':
            want['catalog_matrix'] = want['working_catalog'] = np.array(case['events'])
        elif s == 'create_default_values':
            want['flag_vector'] = np.zeros(len(old['working_catalog']))
            want['completeness_table'] = np.array([[old['working_catalog'][:, 0].min(), old['working_catalog'][:, 5].min()]])
        else:
            need(len(calls) == 1, '%s calls %s algorithms', s, len(calls))
            name, args, res = calls[0]
            m, t = old['working_catalog'], old['completeness_table']
            if s == 'gardner_knopoff':
                exp = ('gardner_knopoff', [m, 'w1', p[0]])
            elif s == 'afteran':
                exp = ('afteran', [old['catalog_matrix'], 'w2', p[1]])
            elif s == 'stepp':
                exp = ('stepp', [m[:, 0], m[:, 5], p[2], p[3], p[4], p[5]])
                want['completeness_table'] = res
            else:
                m = old['catalog_matrix']
                exp = ('select_eq_vector', [m[:, 0], m[:, 5], t[:, 0], t[:, 1], old['flag_vector']])
                want['selected_eq_vector'] = res
            if s in ('gardner_knopoff', 'afteran'):
                want['vcl'], want['working_catalog'], want['flag_vector'] = res
            need(name == exp[0], '%s applies %s', s, name)
            for i, (a, b) in enumerate(zip(args, exp[1])):
                need(same(a, b), '%s: argument %d is %s instead of %s', s, i, short(a), short(b))
        need(sorted(new) == sorted(want), '%s: the context holds %s', s, sorted(set(new) ^ set(want)))
        for k in want:
            need(same(new[k], want[k]), '%s: %s is %s instead of %s', s, k, short(new[k]), short(want[k]))
