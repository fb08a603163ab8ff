import copy
import os
import numpy as np
from .base import *

RULE = ('tables of 1 to 8 rows (half of them with one or two rows) with values of up to nine digits and many decimals, stored and read back '
        'by the same and by another context, after an earlier longer table in the same file and with other files beside it')


def table(g):
    n = g.pick(1, 1, 2, g.int(1, 8))
    y = lambda: g.pick(float(g.int(-9999, 2100)), g.real(-1e4, 2100), 0.0)
    m = lambda: g.pick(g.real(-1, 9, 1), g.real(-1, 9), 0.0, g.int(0, 9) / 10. + 5e-6, 1e-6)
    r = [[y(), m()] for _ in range(n)]
    if g.chance(.1):
        r = [[1e9 * g.r.random(), -1e6 * g.r.random()] for _ in range(n)]
    return r


def gen(g):
    return {'tables': [table(g) for _ in range(g.int(1, 3))], 'names': [g.pick('t.csv', 'u', 'a b.txt') for _ in range(3)]}


def run(case):
    import mtoolkit.workflow as W
    import mtoolkit.jobs as J
    held = {}
    for f in os.listdir('.'):
        os.remove(f)
    c = W.Context()
    for k, (t, name) in enumerate(zip(case['tables'], case['names'])):
        a = arr(t)
        c.config = {'completeness_table_file': name, 'pprocessing_result_file': 'r.csv', 'eq_catalog_file': 'e.csv'}
        c.completeness_table, c.eq_catalog = a, [{'year': 1}]
        c.catalog_matrix = c.working_catalog = np.ones((3, 7))
        conf = copy.deepcopy(c.config)
        J.store_completeness_table(c)
        need(c.completeness_table is a or np.array_equal(c.completeness_table, a), 'storing replaces the table in memory')
        same_array(a, arr(t), 'table in memory after storing')
        need(c.config == conf, 'the configuration is modified')
        held[name] = arr(t)
        need(sorted(os.listdir('.')) == sorted(held), 'files %s instead of %s', sorted(os.listdir('.')), sorted(held))
        for n in sorted(held):
            d = c if k % 2 else W.Context()
            d.config = dict(conf, completeness_table_file=n)
            d.completeness_table = np.array([[1., 2.], [3., 4.]])
            d.catalog_matrix = d.working_catalog = np.ones((3, 7))
            m = d.catalog_matrix
            J.retrieve_completeness_table(d)
            r = d.completeness_table
            need(np.shape(r) == held[n].shape, 'retrieved table has shape %s instead of %s', np.shape(r), held[n].shape)
            need(np.all(np.abs(r - held[n]) <= 5.001e-6 + 1e-12 * np.abs(held[n])), 'retrieved table %s instead of %s', short(r), short(held[n]))
            need(d.catalog_matrix is m and d.working_catalog is m and np.all(m == 1), 'retrieving changes other data')
