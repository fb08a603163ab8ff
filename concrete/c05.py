"""C05 on the real builders."""
import copy
from .base import *


RULE = 'random configurations with up to 9 known steps in random order (also repeated), absent files and an unknown step now and then'
NAMES = {'GardnerKnopoff': 'gardner_knopoff', 'Afteran': 'afteran', 'Stepp': 'stepp', 'Recurrence': 'recurrence',
         'Create_eq_vector': 'create_selected_eq_vector', 'Store_eq_catalog': 'store_preprocessed_catalog',
         'Store_completeness_table': 'store_completeness_table', 'Retrieve_completeness_table': 'retrieve_completeness_table',
         'MaximumMagnitude': 'maximum_magnitude'}


def steps(g):
    l = [g.choice(sorted(NAMES)) for _ in range(g.choice([0, 0, 1, 1, 2, 3, 5, 9]))]
    if not l and g.random() < .5:
        return None
    if l and g.random() < .15:
        l[g.randrange(len(l))] = g.choice(['gardner_knopoff', 'Nope', 'stepp', 'Step', 'GardnerKnopoff ', 'recurrence', 'Maximum'])
    return l


def config(g):
    c = {'preprocessing_jobs': steps(g), 'processing_jobs': steps(g), 'apply_processing_jobs': g.random() < .5,
         'eq_catalog_file': 'c.csv', 'source_model_file': g.choice(['s.xml', None, '']),
         'pprocessing_result_file': g.choice(['r.csv', None, '']), 'completeness_table_file': g.choice(['t.csv', None, '']),
         'GardnerKnopoff': {'time_dist_windows': 'Gruenthal', 'foreshock_time_window': .5}}
    return c


def gen(g):
    g = g.r
    return {'configs': [config(g) for _ in range(g.randrange(1, 4))]}


def expected(c, pre):
    s = c['preprocessing_jobs' if pre else 'processing_jobs'] or []
    for n in s:
        if n not in NAMES:
            return n
    l = [NAMES[n] for n in s]
    if pre:
        l = ['read_eq_catalog', 'read_source_model' if c['source_model_file'] else 'create_default_source_model',
             'create_catalog_matrix', 'create_default_values'] + l
        if s and c['pprocessing_result_file']:
            l += ['create_selected_eq_vector', 'store_preprocessed_catalog', 'store_completeness_table']
        if not s and c['completeness_table_file']:
            l += ['retrieve_completeness_table']
    return l


def names(p):
    from mtoolkit import jobs
    r = []
    for f in p.jobs:
        k = [n for n in vars(jobs) if vars(jobs)[n] is f]
        r.append(k[0] if k else repr(f))
    return r


def run(case):
    from mtoolkit import workflow
    built = []
    shared = [workflow.PreprocessingBuilder(), workflow.ProcessingBuilder()]
    for k, c in enumerate(case['configs']):
        c = copy.deepcopy(c)
        for pre in (True, False):
            was = copy.deepcopy(c)
            want = expected(c, pre)
            b = shared[0 if pre else 1] if k % 2 else (workflow.PreprocessingBuilder if pre else workflow.ProcessingBuilder)()
            try:
                p = b.build(c)
                need(isinstance(want, list), 'the unknown step %r is not rejected' % (want,))
                need(names(p) == want, '%s consists of %s instead of %s' % ('preprocessing' if pre else 'processing', names(p), want))
                built.append((p, want))
            except Exception as e:
                if isinstance(e, Bad):
                    raise
                need(not isinstance(want, list), 'building raises %s' % short(e))
                need(want in str(e), 'the error %s does not name the step %r' % (short(e), want))
            need(c == was, 'the configuration is modified')
    for p, want in built:
        need(names(p) == want, 'an earlier pipeline became %s instead of %s' % (names(p), want))
