"""C05: the pipelines built from a configuration."""
from .common import *

WF, JOBS = 'mtoolkit.workflow', 'mtoolkit.jobs'
STEPS = {'GardnerKnopoff': 'gardner_knopoff', 'Afteran': 'afteran', 'Stepp': 'stepp', 'Recurrence': 'recurrence',
         'Create_eq_vector': 'create_selected_eq_vector', 'Store_eq_catalog': 'store_preprocessed_catalog',
         'Store_completeness_table': 'store_completeness_table', 'Retrieve_completeness_table': 'retrieve_completeness_table',
         'MaximumMagnitude': 'maximum_magnitude'}
CODE = dict((k, i) for i, k in enumerate(sorted(STEPS)))
NAME = z3.Function('NAME', I, ops.S)


def text(s):
    return ops.SStr(s)


def known(i):
    r = False
    for k in STEPS:
        r = lor(r, ops.truth(ops.eq(text(NAME(zi(i))), k)))
    return r


def code(i):
    """number of the step named in position i"""
    r = num(-1)
    for k in STEPS:
        r = ite(ops.truth(ops.eq(text(NAME(zi(i))), k)), num(CODE[k]), r)
    return r


def ident(v, f):
    """number of the step that a callable is"""
    if isinstance(f, sym.Choice):
        return ite(f.c, ident(v, f.a), ident(v, f.b))
    for k, fn in STEPS.items():
        if f is v.fns[k]:
            return num(CODE[k])
    return num(-2)


def setup(v):
    v.world()
    w, j = v.load(WF), v.load(JOBS)
    v.fns = dict((k, getattr(j, fn)) for k, fn in STEPS.items())
    return w, j


def jobs_are(v, name, jobs, head, n, tail):
    """jobs are the callables head, the n configured steps and the callables tail"""
    total = num(len(head) + len(tail)) + n
    v.ensure(name + ': number of steps', num(ops.len_(jobs)) == total)
    for i, f in enumerate(head):
        v.ensure('%s: step %d' % (name, i), sym.force(ops.seq_index(jobs, num(i))) is f)
    if n is not 0:
        v.ensure_all(name + ': configured steps', n, lambda i: ident(v, ops.seq_index(jobs, num(i) + len(head))) == code(i))
    for i, f in enumerate(tail):
        v.ensure('%s: final step %d' % (name, i), sym.force(ops.seq_index(jobs, num(i) + len(head) + n)) is f)


def configuration(v, n, **kw):
    c = {'apply_processing_jobs': v.bool('apply'), 'eq_catalog_file': v.str('catalogue'), 'source_model_file': v.str('model'),
         'pprocessing_result_file': v.str('result'), 'completeness_table_file': v.str('table'),
         'preprocessing_jobs': [Seg(n, lambda i: text(NAME(zi(i))))], 'processing_jobs': [Seg(n, lambda i: text(NAME(zi(i))))]}
    c.update(kw)
    return c


def preprocessing(jobs, model, result, table):
    """each: None, '' or 'given'"""
    def run(v):
        w, j = setup(v)
        n = v.int('jobs', 1)
        kw = {}
        for k, x in (('source_model_file', model), ('pprocessing_result_file', result), ('completeness_table_file', table)):
            if x in (None, ''):
                kw[k] = x
        c = configuration(v, n, **kw)
        for k in ('source_model_file', 'pprocessing_result_file', 'completeness_table_file'):
            if k not in kw:
                v.assume(not_(ops.truth(ops.eq(c[k], ''))))
        v.assume_all(n, known)
        other = w.PreprocessingBuilder().build(c)
        if jobs != 'given':
            c['preprocessing_jobs'] = jobs
        fz = v.freeze(c, other)
        p = w.PreprocessingBuilder().build(c)
        v.unchanged('configuration and earlier pipeline', fz)
        head = [j.read_eq_catalog, j.create_default_source_model if model in (None, '') else j.read_source_model,
                j.create_catalog_matrix, j.create_default_values]
        tail = []
        if jobs == 'given':
            if result not in (None, ''):
                tail = [j.create_selected_eq_vector, j.store_preprocessed_catalog, j.store_completeness_table]
        elif table not in (None, ''):
            tail = [j.retrieve_completeness_table]
        jobs_are(v, 'preprocessing', p.jobs, head, n if jobs == 'given' else num(0), tail)
    return run


def processing(jobs):
    def run(v):
        w, j = setup(v)
        n = v.int('jobs', 1)
        c = configuration(v, n)
        if jobs != 'given':
            c['processing_jobs'] = jobs
        v.assume_all(n, known)
        other = w.ProcessingBuilder().build(c)
        fz = v.freeze(c, other)
        p = w.ProcessingBuilder().build(c)
        v.unchanged('configuration and earlier pipeline', fz)
        jobs_are(v, 'processing', p.jobs, [], n if jobs == 'given' else num(0), [])
    return run


def mentions(e, t):
    """the text of an exception was made from t"""
    r = False
    for m in e.args:
        m = sym.force(m)
        if not isinstance(m, ops.SStr):
            if isinstance(m, str) and '<' not in m:
                continue
            raise Unsupported('text of an exception')
        parts = m.t.children() if z3.is_app(m.t) and m.t.decl().name().startswith('FORMAT:') else []
        for q in [m.t] + parts:
            if q.sort() == t.sort():
                r = lor(r, mkbool(q == t))
    return r


def unknown(builder, key):
    def run(v):
        w, j = setup(v)
        n, p = v.int('jobs', 1), v.int('position', 0)
        c = configuration(v, n)
        v.assume(land(p < n, not_(known(p)), forall(p, known)))
        fz = v.freeze(c)
        try:
            getattr(w, builder)().build(c)
            v.ensure('an unknown step is rejected', False)
        except RuntimeError as e:
            v.ensure('the error names the step', mentions(e, NAME(zi(p))))
        except Unsupported:
            raise
        v.unchanged('configuration', fz)
    return run


G = 'given'
B = [WF + ':PreprocessingBuilder.build', WF + ':PipeLineBuilder.append_jobs', WF + ':PipeLine.add_job', WF + ':PipeLine.__init__']
UNITS = [Unit('C05', 'preprocessing, jobs %r, source model %r, result file %r, table %r' % k, preprocessing(*k), B) for k in (
    (G, G, G, G), (G, G, None, G), (G, None, G, None), (G, '', '', G), (G, None, None, None), (G, G, G, None),
    (None, G, G, G), (None, None, G, None), ([], '', None, G), ([], G, G, ''), (None, G, None, G))]
B = [WF + ':ProcessingBuilder.build', WF + ':PipeLineBuilder.append_jobs', WF + ':PipeLine.add_job', WF + ':PipeLine.__init__']
UNITS += [Unit('C05', 'processing, jobs %r' % (k,), processing(k), B) for k in (G, None, [])]
UNITS += [Unit('C05', 'unknown step of ' + k, unknown(b, k), B) for b, k in (
    ('PreprocessingBuilder', 'preprocessing_jobs'), ('ProcessingBuilder', 'processing_jobs'))]
