import copy
import inspect
import numpy as np
from .base import *
from .c27 import same, own_algorithms

RULE = ('1 to 4 sources (some sharing their recurrence parameters), each with its own 0 to 8 events, processed by any sequence of '
        'the recurrence and the maximum magnitude step with recorded algorithms (their results also zero, negative and large), and the analysis of the maximum magnitude with '
        'each algorithm; a case counts when every source and the whole context were compared after every step')


def gen(g):
    k = g.size(1, 4)
    return {'sources': [[g.size(0, 8) if g.chance(0.8) else 0, g.chance(0.3)] for _ in range(k)],
            'steps': [[g.int(0, k - 1), g.pick('recurrence', 'maximum_magnitude')] for _ in range(g.int(1, 6))],
            'seed': g.int(0, 10 ** 6), 'ref': g.pick(0.0, 4.5, g.real(0, 6)), 'algo': g.pick('Weichert', 'MLE', 'Wiechert'),
            'mm': g.pick('Kijko_Npg', 'Cumulative_Moment')}


def run(case):
    import mtoolkit.workflow as W
    import mtoolkit.jobs as J
    import mtoolkit.source_model as S
    import mtoolkit.scientific.maximum_magnitude as M
    r = np.random.RandomState(case['seed'])
    c = W.Context()
    real = dict(c.map_sc)
    calls = []

    def record(name, size):
        def f(*a, **k):
            b = inspect.signature(real[name]).bind(*a, **k)
            b.apply_defaults()
            calls.append((name, [copy.deepcopy(x) if isinstance(x, np.ndarray) else x for x in b.arguments.values()],
                          tuple(r.choice([0., -1., 1e3]) if r.rand() < .15 else r.rand() for _ in range(size))))
            return calls[-1][2]
        return f
    import mtoolkit.scientific.recurrence as R
    y = np.arange(1960., 2000., 2.)
    m = np.array([4.0, 4.1, 4.0, 4.3, 4.2, 4.0, 5.1, 4.4, 4.1, 4.0, 4.6, 4.2, 4.0, 4.8, 5.6, 4.1, 4.3, 4.0, 4.5, 4.1])
    own_algorithms(real, [('recurrence', R.recurrence_analysis, [y, m, np.array([[1950., 4.]]), 0.1, case['algo'], 4., 1.]),
                          ('maximum_magnitude', M.maximum_magnitude_analysis, [y, m, 0.1 + r.rand(len(m)), case['mm'], 0.01, 50, 5, 20, 10])])
    c.map_sc['recurrence'], c.map_sc['maximum_magnitude'] = record('recurrence', 4), record('maximum_magnitude', 2)
    rc = {'magnitude_window': r.rand(), 'recurrence_algorithm': case['algo'], 'reference_magnitude': case['ref'],
          'time_window': r.rand()}
    mc = {'maxim_mag_algorithm': case['mm'], 'iteration_tolerance': r.rand(), 'maximum_iterations': r.randint(1, 99),
          'neq': r.randint(1, 99), 'number_samples': r.randint(3, 99), 'number_bootstraps': r.randint(1, 99)}
    c.config = {'Recurrence': rc, 'MaximumMagnitude': mc}
    c.completeness_table = r.rand(3, 2)
    c.catalog_matrix = r.rand(5, 7)
    c.working_catalog = c.catalog_matrix.copy()
    c.sm_definitions, events, shared = [], [], None
    for i, (k, share) in enumerate(case['sources']):
        s = S.default_area_source()
        s.name = s.area_source_id = 's%d' % i
        if share and shared is not None:
            s.rupture_rate_model = shared
        else:
            shared = s.rupture_rate_model = S.RUPTURE_RATE_MODEL(S.TRUNCATED_GUTEN_RICHTER(*(list(r.rand(4)) + ['ML'])), *r.rand(3))
        c.sm_definitions.append(s)
        events.append(r.rand(k, 7) if k else np.array([]))
    c.cur_sm, c.current_filtered_eq = c.sm_definitions[0], events[0]
    for i, step in case['steps']:
        c.cur_sm, c.current_filtered_eq = c.sm_definitions[i], events[i]
        old = {k: copy.deepcopy(x) for k, x in c.__dict__.items() if k not in ('map_sc', 'cur_sm')}
        want = [dict(s.__dict__) for s in old['sm_definitions']]
        del calls[:]
        getattr(J, step)(c)
        e = old['current_filtered_eq']
        if len(e) == 0:
            need(calls == [], '%s without events calls its algorithm', step)
        else:
            need(len(calls) == 1, '%s calls %d algorithms', step, len(calls))
            name, args, res = calls[0]
            if step == 'recurrence':
                exp = [e[:, 0], e[:, 5], old['completeness_table'], rc['magnitude_window'], rc['recurrence_algorithm'],
                       rc['reference_magnitude'], rc['time_window']]
                m = {'b_value': res[0], 'a_value': res[2], 'min_magnitude': rc['reference_magnitude']}
                want[i].update(recurrence_sigb=res[1], recurrence_siga_m=res[3])
            else:
                exp = [e[:, 0], e[:, 5], e[:, 6]] + [mc[k] for k in (
                    'maxim_mag_algorithm', 'iteration_tolerance', 'maximum_iterations', 'neq', 'number_samples', 'number_bootstraps')]
                m = {'max_magnitude': res[0]}
                want[i].update(max_mag_sigma=res[1])
            need(name == step, '%s applies %s', step, name)
            for k, (a, b) in enumerate(zip(args, exp)):
                need(same(a, b), '%s: argument %d is %s instead of %s', step, k, short(a), short(b))
            q = want[i]['rupture_rate_model']
            want[i]['rupture_rate_model'] = q._replace(truncated_gutenberg_richter=q.truncated_gutenberg_richter._replace(**m))
        need(len(c.sm_definitions) == len(want) and c.cur_sm is c.sm_definitions[i], '%s: the sources are exchanged', step)
        for k, (s, w) in enumerate(zip(c.sm_definitions, want)):
            need(sorted(s.__dict__) == sorted(w), '%s: attributes %s of source %d', step, sorted(set(s.__dict__) ^ set(w)), k)
            for a in w:
                need(s.__dict__[a] == w[a], '%s on source %d: %s of source %d is %s instead of %s', step, i, a, k, short(s.__dict__[a]), short(w[a]))
        new = {k: x for k, x in c.__dict__.items() if k not in ('map_sc', 'cur_sm')}
        need(sorted(new) == sorted(old), '%s: the context holds %s', step, sorted(set(new) ^ set(old)))
        for k in old:
            if k != 'sm_definitions':
                need(same(new[k], old[k]), '%s: %s is %s instead of %s', step, k, short(new[k]), short(old[k]))
    # the analysis itself, with recorded methods
    n = 4
    a = [r.rand(n) for _ in range(3)]
    b = [x.copy() for x in a]
    got = []

    def method(name):
        sig = inspect.signature(keep[name])

        def f(*x, **k):
            q = sig.bind(*x, **k)
            q.apply_defaults()
            got.append((name, list(q.arguments.values()), (r.rand(), r.rand())))
            return got[-1][2]
        return f
    names = ('kijko_nonparametric_gauss', 'cum_mo_uncertainty')
    keep = {k: getattr(M, k) for k in names}
    try:
        for k in names:
            setattr(M, k, method(k))
        res = M.maximum_magnitude_analysis(a[0], a[1], a[2], case['mm'], mc['iteration_tolerance'], mc['maximum_iterations'],
                                           mc['neq'], mc['number_samples'], mc['number_bootstraps'])
    finally:
        for k in names:
            setattr(M, k, keep[k])
    unchanged('maximum_magnitude_analysis', b, a)
    kij = case['mm'] == 'Kijko_Npg'
    need(len(got) == 1 and got[0][0] == names[0 if kij else 1], '%s calls %s', case['mm'], [x[0] for x in got])
    exp = [b[1], b[2], mc['neq'], mc['number_samples'], mc['iteration_tolerance'], mc['maximum_iterations'], False] if kij else \
        [b[0], b[1], b[2], mc['number_bootstraps']]
    for k, (x, y) in enumerate(zip(got[0][1], exp)):
        need(same(x, y), '%s: argument %d is %s instead of %s', got[0][0], k, short(x), short(y))
    need(tuple(res) == got[0][2], 'maximum magnitude %s instead of %s', res, got[0][2])
