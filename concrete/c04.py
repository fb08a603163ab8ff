import copy
import numpy as np
from .catfile import *

RULE = ('catalogues of 1 to 10 events with blank and given optional values, texts with commas and quotes, any selection of them (none, all, '
        'some); the file is parsed and read back, after an earlier longer export into the same file')


def gen(g):
    def one():
        lines = rows(g, g.size(1, 10))
        p = g.pick(0, .3, .5, 1)
        return {'rows': lines, 'selected': [int(g.chance(p)) for _ in lines]}
    return {'exports': [one() for _ in range(g.pick(1, 1, 2))], 'as_read': g.chance(.7), 'dtype': g.pick('int', 'float', 'bool')}


def run(case):
    import mtoolkit.eqcatalog as E
    import mtoolkit.jobs as J
    import mtoolkit.workflow as W
    clear()
    c = W.Context()
    for x in case['exports']:
        want = [expected(r) for r in x['rows']]
        if any(w[0] for w in want):
            raise Skip('an invalid line')
        ev = [w[1] for w in want]
        c.config = {'pprocessing_result_file': 'result.csv', 'eq_catalog_file': 'in.csv'}
        c.eq_catalog = copy.deepcopy(ev)
        c.catalog_matrix = c.working_catalog = np.ones((len(ev), 7))
        c.flag_vector = np.zeros(len(ev))
        c.vcl = np.zeros(len(ev))
        c.selected_eq_vector = np.array(x['selected']).astype(case['dtype'])
        sel = c.selected_eq_vector.copy()
        conf = copy.deepcopy(c.config)
        J.store_preprocessed_catalog(c)
        same_array(c.selected_eq_vector, sel, 'selection after the export')
        need(c.config == conf, 'the configuration is modified')
        need(len(c.eq_catalog) == len(ev), 'the catalogue in memory has %d events instead of %d', len(c.eq_catalog), len(ev))
        for i, e in enumerate(c.eq_catalog):
            same_event(e, ev[i], 'event %d in memory after the export' % i)
        keep = [e for e, s in zip(ev, x['selected']) if not s]
        need(os.listdir('.') == ['result.csv'], 'files %s', os.listdir('.'))
        with open('result.csv', newline='') as f:
            lines = list(csv.reader(f))
        need(lines and lines[0] == COLUMNS, 'header %s', short(lines[:1]))
        need(len(lines) == len(keep) + 1, '%d lines for %d selected events', len(lines) - 1, len(keep))
        for i, (l, e) in enumerate(zip(lines[1:], keep)):
            need(len(l) == 25, 'line %d has %d cells', i + 2, len(l))
            for k, t in zip(COLUMNS, l):
                w = e[k]
                need(t == w if isinstance(w, str) else number(k, t) == w, 'line %d: %s is %r instead of %r', i + 2, k, t, w)
        with open('result.csv') as f:
            back = E.EqEntryReader(f).read_eq_catalog()
        need(len(back) == len(keep), '%d of %d events are read back', len(back), len(keep))
        for i, e in enumerate(back):
            same_event(e, keep[i], 'event %d read back' % i)
