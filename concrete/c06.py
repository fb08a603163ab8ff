import copy
import numpy as np
from .base import *

RULE = ('workflows of 0 to 4 recorded preprocessing and 0 to 3 recorded processing jobs, which mark the source they work on, over 0 to 4 '
        'sources with and without a geometric filter, the preprocessing jobs replacing the working catalogue; every fourth case runs the '
        'real recurrence and maximum magnitude jobs on recorded algorithms; a case counts when the whole sequence of executed jobs was compared')


def gen(g):
    boxes = []
    for i in range(g.int(0, 4)):
        x, y = g.real(-8, 5, 1), g.real(-8, 5, 1)
        boxes.append([x, y, x + g.real(1, 9, 1), y + g.real(1, 9, 1)])
    n = g.int(1, 8)
    return {'pre': g.int(0, 4), 'pro': g.int(0, 3), 'apply': g.pick(True, True, False), 'filter': g.pick(True, False), 'boxes': boxes,
            'real': g.chance(0.25), 'again': g.chance(0.2),
            'events': [[g.int(1900, 2010), g.int(1, 12), g.int(1, 28), g.real(-10, 10), g.real(-10, 10), g.real(3, 8), 0.1] for _ in range(n)],
            'keep': [g.int(0, 1) for _ in range(n)]}


def run(case):
    import mtoolkit.workflow as W
    import mtoolkit.jobs as J
    import mtoolkit.catalog_filter as C
    from mtoolkit.source_model import (AreaSource, AREA_BOUNDARY, POINT, RUPTURE_RATE_MODEL, TRUNCATED_GUTEN_RICHTER)
    sources = []
    for i, (a, b, c, d) in enumerate(case['boxes']):
        s = AreaSource()
        s.name = 's%d' % i
        s.area_boundary = AREA_BOUNDARY('EPSG:4326', [POINT(a, b), POINT(a, d), POINT(c, d), POINT(c, b), POINT(a, b)])
        s.rupture_rate_model = RUPTURE_RATE_MODEL(TRUNCATED_GUTEN_RICHTER(1., 2., 3., 4., 'Mw'), 5., 6., 7.)
        sources.append(s)
    m = np.array(case['events'], float)
    work = m[np.array(case['keep']) == 1]
    for x, y in m[:, 3:5]:
        for a, b, c, d in case['boxes']:
            if min(abs(x - a), abs(x - c), abs(y - b), abs(y - d)) < 1e-6:
                raise Skip('event on a boundary')
    own = []
    for i, (a, b, c, d) in enumerate(case['boxes']):
        own.append(work[[a < r[3] < c and b < r[4] < d for r in work]] if case['filter'] else work)
    trace, marks = [], {}

    def pre(k):
        def f(c):
            trace.append(('pre', k))
            c.sm_definitions, c.catalog_matrix = sources, m
            c.working_catalog = work.copy()
        f.__name__ = 'pre%d' % k
        return f

    def pro(k):
        def f(c):
            e = np.array(c.current_filtered_eq)
            trace.append(('pro', k, c.cur_sm, e.reshape((-1, 7)) if e.size == 0 else e))
            c.cur_sm.seen = getattr(c.cur_sm, 'seen', ()) + (k,)
        f.__name__ = 'pro%d' % k
        return f
    npre, npro = max(case['pre'], 1), case['pro']
    p = W.PipeLine()
    for k in range(npre):
        p.add_job(J.logged_job(pre(k)) if k % 2 else pre(k))
    jobs = [J.logged_job(pro(k)) if k % 2 else pro(k) for k in range(npro)]
    real = case['real']
    c = W.Context()
    c.config = {'apply_processing_jobs': case['apply'], 'Recurrence': dict(
        magnitude_window=.2, recurrence_algorithm='Wiechart', reference_magnitude=3., time_window=1.),
        'MaximumMagnitude': dict(maxim_mag_algorithm='Kijko_Npg', iteration_tolerance=.01, maximum_iterations=9, neq=9,
                                 number_samples=9, number_bootstraps=9)}
    c.completeness_table = np.array([[1900., 3.]])
    if real:
        value = lambda mag: float(np.sum(np.asarray(mag, float)) * 7 + len(mag))
        c.map_sc['recurrence'] = lambda y, mag, *a, **k: (value(mag), value(mag) + 1, value(mag) + 2, value(mag) + 3)
        c.map_sc['maximum_magnitude'] = lambda y, mag, *a, **k: (value(mag) + 4, value(mag) + 5)
        jobs += [J.recurrence, J.maximum_magnitude]
    config, kept = copy.deepcopy(c.config), m.copy()
    flow = W.Workflow(p, W.PipeLine(list(jobs)))
    flt = C.CatalogFilter(C.SourceModelCatalogFilter()) if case['filter'] else C.CatalogFilter()
    for again in range(2 if case['again'] else 1):
        del trace[:]
        flow.start(c, flt)
        want = [('pre', k) for k in range(npre)]
        if case['apply']:
            want += [('pro', k, s, e) for s, e in zip(sources, own) for k in range(npro)]
        need(len(trace) == len(want), '%d jobs were run instead of %d', len(trace), len(want))
        for i, (t, w) in enumerate(zip(trace, want)):
            need(t[:2] == w[:2], 'job %d run is %s instead of %s', i, t[:2], w[:2])
            if t[0] == 'pro':
                need(t[2] is w[2], 'job %d works on source %s instead of %s', i, t[2].name, w[2].name)
                same_array(t[3], w[3], 'events given to job %d for %s' % (i, w[2].name))
    n = (2 if case['again'] else 1) if case['apply'] else 0
    for s, e in zip(sources, own):
        need(getattr(s, 'seen', ()) == tuple(range(npro)) * n, 'source %s was processed by %s', s.name, getattr(s, 'seen', ()))
        t = s.rupture_rate_model.truncated_gutenberg_richter
        if real and n and len(e):
            v = value(e[:, 5])
            near([t.b_value, t.a_value, t.max_magnitude, t.min_magnitude], [v, v + 2, v + 4, 3.], 'results of ' + s.name)
        else:
            need(tuple(t[:4]) == (1., 2., 3., 4.), 'results of source %s are %s', s.name, tuple(t))
    need(c.config == config, 'the configuration was modified')
    unchanged('the workflow', [kept], [m])
