"""C27: the preprocessing steps of the workflow."""
from .common import *

JOBS, WF = 'mtoolkit.jobs', 'mtoolkit.workflow'
COLUMNS = ['year', 'month', 'day', 'longitude', 'latitude', 'Mw', 'sigmaMw']


def fields(v):
    return v.load('mtoolkit.eqcatalog').FIELDNAMES


def entries(v, n):
    """n read events: every numeric column a function of the event"""
    f = {k: z3.Function('entry:' + k, I, Rl) for k in fields(v)}
    agency = z3.Function('entry:text', I, ops.S)
    mk = lambda i: dict((k, ops.SStr(agency(zi(i))) if k == 'Agency' else mknum(f[k](zi(i)))) for k in fields(v))
    return [Seg(n, mk)], f


def context(v, *skip):
    """a context in the middle of a workflow"""
    c = v.load(WF).Context()
    n, nw, nt = v.int('events', 1), v.int('working events', 1), v.int('rows', 1)
    c.eq_catalog, v.f = entries(v, n)
    c.sm_definitions = [v.obj('source')]
    c.catalog_matrix, c.working_catalog = v.array('matrix', n, 7), v.array('working', nw, 7)
    c.flag_vector, c.vcl = v.array('flags', n, dt='i'), v.array('vcl', n, dt='i')
    c.selected_eq_vector = v.array('selected', n, dt='i')
    c.completeness_table = v.array('table', nt, 2)
    c.config = {'eq_catalog_file': v.str('catalogue file'), 'source_model_file': v.str('source model file'),
                'pprocessing_result_file': v.str('result file'), 'completeness_table_file': v.str('table file'),
                'preprocessing_jobs': [v.str('job')], 'processing_jobs': [v.str('another job')],
                'GardnerKnopoff': {'time_dist_windows': v.obj('GK windows'), 'foreshock_time_window': v.real('foreshock window')},
                'Afteran': {'time_dist_windows': v.obj('Afteran windows'), 'time_window': v.real('Afteran time window')},
                'Stepp': {'time_window': v.real('Stepp time window'), 'magnitude_windows': v.real('Stepp magnitude window'),
                          'sensitivity': v.real('sensitivity'), 'increment_lock': v.bool('increment lock')},
                'Recurrence': {'magnitude_window': v.real('magnitude window'), 'time_window': v.real('time window'),
                               'recurrence_algorithm': v.str('recurrence algorithm'),
                               'reference_magnitude': v.real('reference magnitude')},
                'MaximumMagnitude': {'maxim_mag_algorithm': v.str('magnitude algorithm'), 'iteration_tolerance': v.real('tolerance'),
                                     'maximum_iterations': v.int('iterations'), 'neq': v.int('neq'),
                                     'number_samples': v.int('samples'), 'number_bootstraps': v.int('bootstraps')}}
    v.n, v.nw, v.nt = n, nw, nt
    return c


def before(v, c):
    return dict(c.__dict__), v.freeze(*[x for k, x in c.__dict__.items() if k != 'map_sc']), dict(c.map_sc)


def others(v, c, st, *changed):
    d, fz, sc = st
    v.ensure('the algorithms are kept', list(sc) == list(c.map_sc) and all(sc[k] is c.map_sc[k] for k in sc))
    now = c.__dict__
    v.ensure('nothing else is stored', sorted(k for k in now if k not in d) == sorted(k for k in changed if k not in d))
    for k in d:
        if k not in changed:
            same = k in now and (now[k] is d[k] or (not isinstance(d[k], SArr) and ops.truth(ops.eq(now[k], d[k]))))
            if not same and k in now and isinstance(d[k], SArr):
                matrix(v, k + ' is kept', now[k], d[k])
            else:
                v.ensure(k + ' is kept', same)
    v.unchanged('data and configuration', fz)


def matrix(v, name, a, b):
    v.shape_is(name, a, *b.shape)
    if len(b.shape) == 1:
        v.ensure_all(name, b.shape[0], lambda i: num(a.at(i)) == num(b.at(i)))
    else:
        v.ensure_all2(name, b.shape[0], b.shape[1], lambda i, j: num(a.at(i, j)) == num(b.at(i, j)))


def column(v, name, a, m, j):
    v.shape_is(name, a, m.shape[0])
    v.ensure_all(name, m.shape[0], lambda i: num(a.at(i)) == num(m.at(i, num(j))))


def catalog_matrix(v):
    v.world()
    c = context(v)
    n = v.n
    st = before(v, c)
    v.load(JOBS).create_catalog_matrix(c)
    for what in ('catalog_matrix', 'working_catalog'):
        a = getattr(c, what)
        v.shape_is(what, a, n, 7)
        for j, col in enumerate(COLUMNS):
            v.ensure_all('%s of %s' % (col, what), n, lambda i: num(a.at(i, num(j))) == mknum(v.f[col](zi(i))))
    others(v, c, st, 'catalog_matrix', 'working_catalog')


def default_values(v):
    v.world()
    c = context(v)
    w = c.working_catalog
    st = before(v, c)
    v.load(JOBS).create_default_values(c)
    v.shape_is('removal flags', c.flag_vector, v.nw)
    v.ensure_all('removal flags', v.nw, lambda i: num(c.flag_vector.at(i)) == 0)
    v.shape_is('completeness table', c.completeness_table, 1, 2)
    for j, col, what in ((0, 0, 'year'), (1, 5, 'magnitude')):
        v.ensure('smallest ' + what, num(c.completeness_table.at(num(0), num(j))) == mkred(
            'min', 0, v.nw, lambda i: w.at(i, num(col))))
    others(v, c, st, 'flag_vector', 'completeness_table')


def decluster(job, fn, data, section, par):
    def run(v):
        calls = []
        k = v.int('retained', 0)

        def stub(*args, **kw):
            calls.append((args, kw))
            return v.r
        v.world({DC + ':' + fn: stub})
        c = context(v)
        given = getattr(c, data)
        n = given.shape[0]
        v.r = v.array('new vcl', n, dt='i'), v.array('main shocks', k, 7), v.array('new flags', n, dt='i')
        r = list(v.r)
        fz = v.freeze(*r)
        st = before(v, c)
        cfg = c.config[section]
        getattr(v.load(JOBS), job)(c)
        v.ensure('declustered once', len(calls) == 1)
        args = roles(v, DC + ':' + fn, calls[0])
        matrix(v, 'event data given to ' + fn, args[0], given)
        v.ensure('windows given to ' + fn, args[1] is cfg['time_dist_windows'])
        v.ensure('time window given to ' + fn, num(args[2]) == num(cfg[par]))
        matrix(v, 'cluster numbers', c.vcl, r[0])
        matrix(v, 'working catalogue', c.working_catalog, r[1])
        matrix(v, 'removal flags', c.flag_vector, r[2])
        others(v, c, st, 'vcl', 'working_catalog', 'flag_vector')
        v.unchanged('results', fz)
    return run


def stepp(v):
    calls = []

    def stub(*args, **kw):
        calls.append((args, kw))
        return v.r
    v.world({CO + ':stepp_analysis': stub})
    c = context(v)
    v.r = v.array('new table', v.int('new rows', 1), 2)
    st = before(v, c)
    cfg, w = c.config['Stepp'], c.working_catalog
    v.load(JOBS).stepp(c)
    v.ensure('analysed once', len(calls) == 1)
    a = roles(v, CO + ':stepp_analysis', calls[0])
    column(v, 'years given to stepp_analysis', a[0], w, 0)
    column(v, 'magnitudes given to stepp_analysis', a[1], w, 5)
    for i, k in ((2, 'magnitude_windows'), (3, 'time_window'), (4, 'sensitivity')):
        v.ensure(k + ' given to stepp_analysis', num(a[i]) == num(cfg[k]))
    v.ensure('increment_lock given to stepp_analysis', ops.truth(ops.eq(a[5], cfg['increment_lock'])))
    matrix(v, 'completeness table', c.completeness_table, v.r)
    others(v, c, st, 'completeness_table')


def select(v):
    calls = []

    def stub(*args, **kw):
        calls.append((args, kw))
        return v.r
    v.world({CO + ':selected_eq_flag_vector': stub})
    c = context(v)
    v.r = v.array('new selection', v.n, dt='i')
    st = before(v, c)
    m, t = c.catalog_matrix, c.completeness_table
    v.load(JOBS).create_selected_eq_vector(c)
    v.ensure('selected once', len(calls) == 1)
    a = roles(v, CO + ':selected_eq_flag_vector', calls[0])
    column(v, 'years given to selected_eq_flag_vector', a[0], m, 0)
    column(v, 'magnitudes given to selected_eq_flag_vector', a[1], m, 5)
    column(v, 'completeness years given to selected_eq_flag_vector', a[2], t, 0)
    column(v, 'completeness magnitudes given to selected_eq_flag_vector', a[3], t, 1)
    matrix(v, 'removal flags given to selected_eq_flag_vector', a[4], c.flag_vector)
    matrix(v, 'selection', c.selected_eq_vector, v.r)
    others(v, c, st, 'selected_eq_vector')


J = lambda f: [JOBS + ':' + f, WF + ':Context.__init__', JOBS + ':logged_job']
UNITS = [Unit('C27', 'create_catalog_matrix', catalog_matrix, J('create_catalog_matrix')),
         Unit('C27', 'create_default_values', default_values, J('create_default_values')),
         Unit('C27', 'gardner_knopoff', decluster('gardner_knopoff', 'gardner_knopoff_decluster', 'working_catalog',
                                                  'GardnerKnopoff', 'foreshock_time_window'), J('gardner_knopoff')),
         Unit('C27', 'afteran', decluster('afteran', 'afteran_decluster', 'catalog_matrix', 'Afteran', 'time_window'), J('afteran')),
         Unit('C27', 'stepp', stepp, J('stepp')),
         Unit('C27', 'create_selected_eq_vector', select, J('create_selected_eq_vector'))]
