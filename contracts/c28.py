"""C28: the completeness table file."""
import re
from .common import *
from .c27 import JOBS, WF, context, before, others, matrix

HALF = F('0.000005')


class Files(object):
    """numpy's text files: the numbers in rows, each to the decimals of the format; a file of one row is read as a vector"""
    def __init__(self):
        self.f = {}

    def key(self, name):
        name = sym.force(name)
        if not isinstance(name, (str, ops.SStr)):
            raise Unsupported('file %r' % type(name))
        return name if isinstance(name, str) else name.t.sexpr()

    def save(self, name, X, fmt, delimiter, k):
        if k or not isinstance(X, SArr):
            raise Unsupported('savetxt')
        m = re.match(r'%\d*\.(\d+)f$', fmt) if isinstance(fmt, str) else None
        if not m:
            raise Unsupported('format %r' % (fmt,))
        if len(X.shape) == 1:
            X = X.reshape(-1, 1)
        self.f[self.key(name)] = (npm.around(X, int(m.group(1))), delimiter)

    def load(self, name, k):
        k = dict(k)
        d, nd = k.pop('delimiter', None), k.pop('ndmin', 0)
        if k or not isinstance(nd, int):
            raise Unsupported('genfromtxt')
        if self.key(name) not in self.f:
            RT.v.ensure('the table is read from the file it was stored in', False)
            raise PathEnd()
        X, e = self.f[self.key(name)]
        if d != e:
            raise Unsupported('delimiters %r and %r' % (e, d))
        X = X.copy()
        if nd < 2 and bool(num(X.shape[0]) == 1):
            if isinstance(X.shape[1], int) and X.shape[1] == 1:
                raise Unsupported('scalar')
            return X[0]
        return X


def setup(v):
    v.world()
    fs = Files()
    lib.HOOKS['savetxt'], lib.HOOKS['genfromtxt'] = fs.save, fs.load
    return fs


def roundtrip(v):
    """store, then retrieve in another workflow"""
    setup(v)
    j = v.load(JOBS)
    c = context(v)
    st = before(v, c)
    t = c.completeness_table
    j.store_completeness_table(c)
    others(v, c, st)
    d = v.load(WF).Context()
    d.config = {'completeness_table_file': c.config['completeness_table_file'], 'pprocessing_result_file': v.str('other file'),
                'eq_catalog_file': v.str('another file')}
    d.completeness_table = v.array('earlier table', v.int('earlier rows', 1), 2)
    d.catalog_matrix = v.array('other matrix', v.int('other events', 1), 7)
    d.working_catalog, d.flag_vector = d.catalog_matrix, v.array('other flags', v.int('other events'))
    st = before(v, d)
    fz = v.freeze(c.completeness_table, c.config)
    j.retrieve_completeness_table(d)
    others(v, d, st, 'completeness_table')
    v.unchanged('the stored table', fz)
    r = d.completeness_table
    v.shape_is('retrieved table', r, v.nt, 2)
    for k in (0, 1):
        v.ensure_all('column %d to five decimals' % k, v.nt, lambda i: absv(num(r.at(i, num(k))) - num(t.at(i, num(k)))) <= HALF)


def again(v):
    """storing twice replaces the file; tables in other files stay"""
    fs = setup(v)
    j = v.load(JOBS)
    c = context(v)
    other = (v.array('other table', v.int('other rows', 1), 2), ',')
    fs.f['another file'] = other
    j.store_completeness_table(c)
    c.completeness_table = v.array('newer table', v.int('newer rows', 1), 2)
    t = c.completeness_table
    j.store_completeness_table(c)
    v.ensure('one file is written', len(fs.f) == 2 and fs.f['another file'] is other)
    j.retrieve_completeness_table(c)
    r = c.completeness_table
    v.shape_is('retrieved table', r, t.shape[0], 2)
    for k in (0, 1):
        v.ensure_all('newer table, column %d' % k, t.shape[0], lambda i: absv(num(r.at(i, num(k))) - num(t.at(i, num(k)))) <= HALF)


J = [JOBS + ':store_completeness_table', JOBS + ':retrieve_completeness_table', JOBS + ':logged_job']
A = ['numpy.savetxt/genfromtxt: one line per row, values to the decimals of the format, a single row read as a vector']
UNITS = [Unit('C28', 'store and retrieve', roundtrip, J, A), Unit('C28', 'store twice', again, J, A)]
