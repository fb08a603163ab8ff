"""C13: selection vector."""
from .common import *


def excluded(Y, M, cy, cm, nc, i):
    return exists(nc, lambda c: land(Y.at(i) < cy.at(c), M.at(i) < cm.at(c)))


def inputs(v):
    n, nc = v.int('n', 0), v.int('nc', 0)
    return n, nc, v.array('year', n), v.array('mag', n), v.array('cyear', nc), v.array('cmag', nc), v.array('flag', n, dt='i')


def selection(v):
    v.world()
    m = v.load(CO)
    n, nc, Y, M, cy, cm, fl = inputs(v)
    fz = v.freeze(Y, M, cy, cm, fl)
    r = m.selected_eq_flag_vector(Y, M, cy, cm, fl)
    v.shape_is('selection vector', r, n)
    v.unchanged('inputs', fz)
    v.ensure_all('1 exactly for declustered or incomplete events, else 0', n, lambda i:
                 r.at(i) == ite(lor(not_(fl.at(i) == 0), excluded(Y, M, cy, cm, nc, i)), 1, 0))


def order(v):
    v.world()
    m = v.load(CO)
    n, nc, Y, M, cy, cm, fl = inputs(v)
    p = z3.Function('perm', I, I)
    q = z3.Function('iperm', I, I)
    x = z3.Int('x')
    for f, g in ((p, q), (q, p)):
        RT.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < zi(nc)), z3.And(0 <= f(x), f(x) < zi(nc), g(f(x)) == x))))
    cy2 = SArr((nc,), lambda ix: cy.at(p(ix[0])), 'f')
    cm2 = SArr((nc,), lambda ix: cm.at(p(ix[0])), 'f')
    r = m.selected_eq_flag_vector(Y, M, cy, cm, fl)
    r2 = m.selected_eq_flag_vector(Y, M, cy2, cm2, fl)
    v.ensure_all('independent of the order of the categories', n, lambda i: r.at(i) == r2.at(i))
    k = nc + 1
    ya, ma = v.real('newyear'), v.real('newmag')
    cy3 = SArr((k,), lambda ix: ite(mkbool(ix[0] < zi(nc)), cy.at(ix[0]), ya), 'f')
    cm3 = SArr((k,), lambda ix: ite(mkbool(ix[0] < zi(nc)), cm.at(ix[0]), ma), 'f')
    r3 = m.selected_eq_flag_vector(Y, M, cy3, cm3, fl)
    v.ensure_all('a further category never selects more', n, lambda i: implies(r3.at(i) == 0, r.at(i) == 0))


UNITS = [Unit('C13', 'selected_eq_flag_vector', selection, [CO + ':selected_eq_flag_vector']),
         Unit('C13', 'selected_eq_flag_vector order and growth', order, [CO + ':selected_eq_flag_vector'])]
