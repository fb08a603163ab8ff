"""C19: the processing steps of the workflow."""
from .common import *
from .c27 import JOBS, WF, context, before, others, matrix, column

FIELDS = ('nrml_id', 'source_model_id', 'area_source_id', 'name', 'tectonic_region', 'area_boundary', 'rupture_rate_model',
          'rupture_depth_dist', 'hypocentral_depth')


def source(v, name):
    sm = v.load('mtoolkit.source_model')
    s = sm.AreaSource()
    for k in FIELDS:
        setattr(s, k, v.str('%s of %s' % (k, name)))
    s.area_boundary = sm.AREA_BOUNDARY(v.str('srs of ' + name), [
        Seg(v.int('points of ' + name, 1), lambda i, f=z3.Function('lon of ' + name, I, Rl), g=z3.Function('lat of ' + name, I, Rl):
            sm.POINT(mknum(f(zi(i))), mknum(g(zi(i)))))])
    s.rupture_rate_model = sm.RUPTURE_RATE_MODEL(sm.TRUNCATED_GUTEN_RICHTER(
        *[v.real('%s of %s' % (k, name)) for k in ('a', 'b', 'mmin', 'mmax')] + [v.str('tgr type of ' + name)]),
        *[v.real('%s of %s' % (k, name)) for k in ('strike', 'dip', 'rake')])
    s.rupture_depth_dist = sm.RUPTURE_DEPTH_DISTRIB(sm.MAGNITUDE(v.str('magnitude type of ' + name), [v.real('depth magnitude of ' + name)]),
                                                    [v.real('depth of ' + name)])
    s.hypocentral_depth = v.real('hypocentral depth of ' + name)
    return s


def scene(v, stubs, empty):
    v.world(stubs)
    c = context(v)
    c.cur_sm, other = source(v, 'this source'), source(v, 'another source')
    for s in (c.cur_sm, other):         # as an earlier step leaves them
        s.recurrence_sigb, s.recurrence_siga_m, s.max_mag_sigma = [v.real('%s %d' % (k, s is other)) for k in 'xyz']
    c.sm_definitions = [other, c.cur_sm]
    if empty:
        c.current_filtered_eq = npm.array([])
    else:
        c.current_filtered_eq = v.array('events of the source', v.int('k', 1), 7)
    cur = dict(c.cur_sm.__dict__)
    fz = v.freeze(other)
    st = before(v, c)
    st = (st[0], [f for f in st[1] if f[0] is not c.cur_sm and f[0] is not c.sm_definitions], st[2])
    return c, other, cur, fz, st


def after(v, c, other, cur, fz, st, model, **errors):
    now = c.cur_sm.__dict__
    v.ensure('this source stays the one processed', c.sm_definitions[0] is other and c.sm_definitions[1] is c.cur_sm and
             len(c.sm_definitions) == 2 and c.cur_sm is st[0]['cur_sm'])
    v.ensure('no attribute is added or lost', sorted(now) == sorted(cur))
    for k in cur:
        if k == 'rupture_rate_model':
            old = cur[k].truncated_gutenberg_richter._asdict()
            old.update(model)
            new = now[k].truncated_gutenberg_richter._asdict()
            v.ensure('recurrence parameters', list(old) == list(new))
            for q in old:
                v.ensure(q + ' of the source', ops.truth(ops.eq(new[q], old[q])))
            for q in ('strike', 'dip', 'rake'):
                v.ensure(q + ' of the source', getattr(now[k], q) == getattr(cur[k], q))
        else:
            v.ensure(k + ' of the source', ops.truth(ops.eq(now[k], errors.get(k, cur[k]))))
    others(v, c, st)
    v.unchanged('another source', fz)


def recurrence(empty):
    def run(v):
        calls = []
        res = [v.real(k) for k in ('b', 'sigma b', 'a', 'sigma a')]

        def stub(*args, **kw):
            calls.append((args, kw))
            return tuple(res)
        c, other, cur, fz, st = scene(v, {RE + ':recurrence_analysis': stub}, empty)
        cfg, e = c.config['Recurrence'], c.current_filtered_eq
        v.load(JOBS).recurrence(c)
        if empty:
            v.ensure('nothing is computed', calls == [])
            return after(v, c, other, cur, fz, st, {})
        v.ensure('computed once', len(calls) == 1)
        a = roles(v, RE + ':recurrence_analysis', calls[0])
        column(v, 'years given to recurrence_analysis', a[0], e, 0)
        column(v, 'magnitudes given to recurrence_analysis', a[1], e, 5)
        matrix(v, 'completeness table given to recurrence_analysis', a[2], c.completeness_table)
        v.ensure('magnitude_window given to recurrence_analysis', num(a[3]) == cfg['magnitude_window'])
        v.ensure('recurrence_algorithm given to recurrence_analysis', ops.truth(ops.eq(a[4], cfg['recurrence_algorithm'])))
        v.ensure('reference_magnitude given to recurrence_analysis', num(a[5]) == cfg['reference_magnitude'])
        v.ensure('time_window given to recurrence_analysis', num(a[6]) == cfg['time_window'])
        after(v, c, other, cur, fz, st, {'b_value': res[0], 'a_value': res[2], 'min_magnitude': cfg['reference_magnitude']},
              recurrence_sigb=res[1], recurrence_siga_m=res[3])
    return run


def maximum(empty):
    def run(v):
        calls = []
        res = [v.real(k) for k in ('maximum magnitude', 'its error')]

        def stub(*args, **kw):
            calls.append((args, kw))
            return tuple(res)
        c, other, cur, fz, st = scene(v, {MM + ':maximum_magnitude_analysis': stub}, empty)
        cfg, e = c.config['MaximumMagnitude'], c.current_filtered_eq
        v.load(JOBS).maximum_magnitude(c)
        if empty:
            v.ensure('nothing is computed', calls == [])
            return after(v, c, other, cur, fz, st, {})
        v.ensure('computed once', len(calls) == 1)
        fn = 'maximum_magnitude_analysis'
        a = roles(v, MM + ':' + fn, calls[0])
        for i, j, what in ((0, 0, 'years'), (1, 5, 'magnitudes'), (2, 6, 'magnitude errors')):
            column(v, '%s given to %s' % (what, fn), a[i], e, j)
        for i, k in enumerate(('maxim_mag_algorithm', 'iteration_tolerance', 'maximum_iterations', 'neq', 'number_samples',
                               'number_bootstraps')):
            v.ensure('%s given to %s' % (k, fn), ops.truth(ops.eq(a[3 + i], cfg[k])))
        after(v, c, other, cur, fz, st, {'max_magnitude': res[0]}, max_mag_sigma=res[1])
    return run


def analysis(algorithm):
    def run(v):
        calls = []
        res = v.real('maximum magnitude'), v.real('its error')

        def stub(name):
            def f(*args, **kw):
                calls.append((name, args, kw))
                return res
            return f
        K, C = 'kijko_nonparametric_gauss', 'cum_mo_uncertainty'
        v.world({MM + ':' + K: stub(K), MM + ':' + C: stub(C)})
        n = v.int('n', 1)
        y, m, s = [v.array(k, n) for k in ('year', 'magnitude', 'error')]
        tol, it, neq, ns, nb = v.real('tolerance'), v.int('iterations'), v.int('neq'), v.int('samples'), v.int('bootstraps')
        fz = v.freeze(y, m, s)
        r = v.load(MM).maximum_magnitude_analysis(y, m, s, algorithm, tol, it, neq, ns, nb)
        v.unchanged('inputs', fz)
        name = K if algorithm == 'Kijko_Npg' else C
        v.ensure('method', [c[0] for c in calls] == [name])
        a = roles(v, MM + ':' + name, calls[0][1:])
        if name == K:
            matrix(v, 'magnitudes', a[0], m)
            matrix(v, 'magnitude errors', a[1], s)
            for i, (k, x) in enumerate((('neq', neq), ('number of samples', ns), ('tolerance', tol), ('iterations', it))):
                v.ensure(k, num(a[2 + i]) == x)
            v.ensure('the maximum is the observed one', not_(ops.truth(a[6])))
        else:
            matrix(v, 'years', a[0], y)
            matrix(v, 'magnitudes', a[1], m)
            matrix(v, 'magnitude errors', a[2], s)
            v.ensure('number of bootstraps', num(a[3]) == nb)
        v.ensure('two results', len(r) == 2)
        v.ensure('maximum magnitude', num(r[0]) == res[0])
        v.ensure('its error', num(r[1]) == res[1])
    return run


J = lambda f: [JOBS + ':' + f, WF + ':Context.__init__', JOBS + ':logged_job']
UNITS = [Unit('C19', 'recurrence' + (', no events' if e else ''), recurrence(e), J('recurrence')) for e in (0, 1)]
UNITS += [Unit('C19', 'maximum_magnitude' + (', no events' if e else ''), maximum(e), J('maximum_magnitude')) for e in (0, 1)]
UNITS += [Unit('C19', 'maximum_magnitude_analysis, ' + a, analysis(a), [MM + ':maximum_magnitude_analysis'])
          for a in ('Kijko_Npg', 'Cumulative_Moment')]
