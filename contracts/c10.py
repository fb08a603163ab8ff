"""C10: declustering windows."""
from .common import *

def windows(v, cls):
    v.world()
    m = v.load(DC)
    n = v.int('n', 1)
    M = v.array('M', n)
    v.assume_all(n, lambda i: M.at(i) > 0)
    fz = v.freeze(M)
    space, time = getattr(m, cls)().calc(M)
    v.shape_is('distance windows', space, n)
    v.shape_is('time windows', time, n)
    v.unchanged('magnitudes', fz)
    return n, M, space, time


def formulas(v, n, M, space, time, fs, ft):
    v.ensure_all('distance window is the published formula', n, lambda i: space.at(i) == fs(M.at(i)))
    v.ensure_all('time window is the published formula', n, lambda i: time.at(i) == ft(M.at(i)))
    v.ensure_all('distance windows are positive', n, lambda i: space.at(i) > 0)
    v.ensure_all('time windows are positive', n, lambda i: time.at(i) > 0)
    v.ensure_all2('distance window grows with the magnitude', n, n,
                  lambda i, j: implies(M.at(i) < M.at(j), space.at(i) < space.at(j)))
    v.ensure_all2('time window does not decrease on each side of 6.5', n, n,
                  lambda i, j: implies(land(M.at(i) < M.at(j), lor(M.at(j) < F('6.5'), M.at(i) >= F('6.5'))),
                                       time.at(i) <= time.at(j)))


def gk(v):
    a = windows(v, 'GardnerKnopoffWindow')
    formulas(v, *a, lambda m: p10(F('0.1238') * m + F('0.983')),
             lambda m: ite(m < F('6.5'), p10(F('0.5409') * m - F('0.547')) / 365, p10(F('0.032') * m + F('2.7389')) / 365))


def gr(v):
    a = windows(v, 'GruenthalWindow')
    formulas(v, *a, lambda m: exp(F('1.77') + sqrt(F('0.037') + F('1.02') * m)),
             lambda m: ite(m < F('6.5'), absv(exp(F('-3.95') + sqrt(F('0.62') + F('17.32') * m)) / 365),
                           p10(F('2.8') + F('0.024') * m) / 365))


def uh(v):
    a = windows(v, 'UhrhammerWindow')
    formulas(v, *a, lambda m: exp(F('-1.024') + F('0.804') * m), lambda m: exp(F('-2.87') + F('1.235') * m / 365))


def table(v):
    v.world()
    m = v.load(DC)
    for k, c in (('GardnerKnopoff', 'GardnerKnopoffWindow'), ('Gruenthal', 'GruenthalWindow'),
                 ('Uhrhammer', 'UhrhammerWindow')):
        v.ensure('%s names its own window' % k, type(m.time_dist_windows[k]) is getattr(m, c))
    v.ensure('exactly the three windows are offered', len(m.time_dist_windows) == 3)


UNITS = [Unit('C10', 'GardnerKnopoffWindow.calc', gk, [DC + ':GardnerKnopoffWindow.calc']),
         Unit('C10', 'GruenthalWindow.calc', gr, [DC + ':GruenthalWindow.calc']),
         Unit('C10', 'UhrhammerWindow.calc', uh, [DC + ':UhrhammerWindow.calc']),
         Unit('C10', 'time_dist_windows', table, [DC + ':time_dist_windows'])]
