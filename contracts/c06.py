"""C06: running pipelines and the workflow."""
from .common import *
from .c27 import JOBS, WF, matrix

CF = 'mtoolkit.catalog_filter'


class Step(object):
    """a job which records its number"""
    def __init__(self, i):
        self.i = i

    def __call__(self, context):
        context.trace.append(self.i)

    def __sym_subst__(self, pairs):
        return Step(rt.vsubst(self.i, pairs))

    def __sym_scan__(self):
        return [self.i]

    def __sym_same__(self, o):
        return isinstance(o, Step) and rt.same(self.i, o.i)


def pipeline(v):
    v.world()
    w = v.load(WF)
    n = v.int('jobs', 0)
    f = z3.Function('job', I, I)
    p = w.PipeLine([Seg(n, lambda i: Step(mknum(f(zi(i)))))])
    c = w.Context()
    k = v.int('earlier', 0)
    g = z3.Function('earlier job', I, I)
    c.trace = [Seg(k, lambda i: mknum(g(zi(i))))]
    fz = v.freeze(p)
    p.run(c)
    v.unchanged('pipeline', fz)
    v.ensure('every job is run once', num(ops.len_(c.trace)) == k + n)
    v.ensure_all('earlier work is kept', k, lambda i: num(ops.seq_index(c.trace, i)) == mknum(g(zi(i))))
    v.ensure_all('jobs are run in order', n, lambda i: num(ops.seq_index(c.trace, k + i)) == mknum(f(zi(i))))


OBJ = z3.DeclareSort('Obj')


class Recorded(object):
    """stands for a pipeline under the contract of PipeLine.run, all its jobs together being one recorded action"""
    def __init__(self, f):
        self.f = f

    def run(self, context):
        self.f(context)


class Selection(object):
    """a source filter: the events of a source are a function of the source, for the given catalogue"""
    def __init__(self, f, cat):
        self.f, self.cat = f, cat

    def filter_eqs(self, sm, cat):
        i, j = z3.Ints('row column')
        same = cat is self.cat or (isinstance(cat, SArr) and len(cat.shape) == 2 and all(
            num(a).z.eq(num(b).z) for a, b in zip(cat.shape, self.cat.shape)) and norm(cat.get()((i, j)).z).eq(norm(self.cat.get()((i, j)).z)))
        return OObj(self.f(sm.t, z3.BoolVal(same)), 'Events')


class Logged(object):
    """a job named for logged_job which records the source it works on"""
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, context):
        context.trace.append((self.__name__, context.cur_sm, context.current_filtered_eq))


def workflow(apply, filtered, steps=None):
    """apply: None for any configuration; steps: real pipelines of so many jobs instead of contracts"""
    def run(v):
        v.world()
        w, cf = v.load(WF), v.load(CF)
        m, nw = v.int('sources', 0), v.int('events', 1)
        src, sel = z3.Function('source', I, OBJ), z3.Function('selected', OBJ, B, OBJ)
        c = w.Context()
        c.trace = []
        c.cur_sm, c.current_filtered_eq = v.obj('earlier source'), v.obj('earlier events')
        c.config = {'apply_processing_jobs': v.bool('apply') if apply is None else apply}
        sms, cat = [Seg(m, lambda i: OObj(src(zi(i)), 'AreaSource'))], v.array('working', nw, 7)

        def before(ctx):
            ctx.trace.append(('before', None))
            ctx.sm_definitions, ctx.working_catalog = sms, cat

        def step(ctx):
            ctx.trace.append(('step 0', ctx.cur_sm, ctx.current_filtered_eq))
        pre, pro = Recorded(before), Recorded(step)
        if steps is not None:
            jobs = v.load(JOBS)
            before.__name__ = 'before'
            pre = w.PipeLine([jobs.logged_job(before)])
            pro = w.PipeLine()
            for i in range(steps):
                pro.add_job(jobs.logged_job(Logged('step %d' % i)))
        k = 1 if steps is None else steps
        fz = v.freeze(c.config, sms, cat)
        w.Workflow(pre, pro).start(c, cf.CatalogFilter(Selection(sel, cat)) if filtered else cf.CatalogFilter())
        v.unchanged('configuration, source model and catalogue', fz)
        on = ops.truth(c.config['apply_processing_jobs'])
        v.ensure('preprocessing runs first', c.trace[0] == ('before', None))
        v.ensure('processing is run once per source', num(ops.len_(c.trace)) == 1 + ite(on, k * m, num(0)))
        if v.case(on):
            for q in range(k):
                get = lambda i: ops.seq_index(c.trace, 1 + k * i + q)
                part = lambda i, j: ops.getitem(get(i), j)
                own = lambda i: src(zi(i))
                v.ensure_all('step %d is run' % q, m, lambda i: ops.truth(ops.eq(part(i, 0), 'step %d' % q)))
                v.ensure_all('sources in order, step %d' % q, m, lambda i: ops.truth(ops.eq(part(i, 1), OObj(own(i), 'AreaSource'))))
                if filtered:
                    v.ensure_all('events of that source, step %d' % q, m, lambda i: ops.truth(ops.eq(
                        part(i, 2), OObj(sel(own(i), z3.BoolVal(True)), 'Events'))))
                elif v.case(m > 0):
                    i = v.int('which', 0)
                    v.assume(i < m)
                    matrix(v, 'complete catalogue, step %d' % q, part(i, 2), cat)
    return run


W = [WF + ':Workflow.start', WF + ':Workflow.__init__', CF + ':CatalogFilter.filter_eqs', CF + ':CatalogFilter.__init__']
UNITS = [Unit('C06', 'PipeLine.run', pipeline, [WF + ':PipeLine.run', WF + ':PipeLine.__init__']),
         Unit('C06', 'start', workflow(None, True), W),
         Unit('C06', 'start, no filter', workflow(True, False), W + [CF + ':NullCatalogFilter.filter_eqs'])]
UNITS += [Unit('C06', 'start, pipeline of %d jobs' % k, workflow(None, True, k), W + [WF + ':PipeLine.run', JOBS + ':logged_job'])
          for k in (0, 1, 2, 3)]
