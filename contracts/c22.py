"""C22: cumulative moment magnitude."""
from .common import *
from pyvc.npm import DEV, UNSEEDED


def value(n, year, mag):
    """the estimate as a function of the events"""
    moment = lambda e: p10(F('9.05') + F('1.5') * num(mag(e)))
    first = mkred('min', 0, n, lambda e: num(year(e)))
    last = mkred('max', 0, n, lambda e: num(year(e)))
    ny = last - first + 1
    rate = lambda y: mkred('sum', 0, n, moment, guard=lambda e: zb(num(year(e)) == first + y))
    mean = mkred('sum', 0, ny, rate) / ny
    dev = lambda t: mkred('sum', 0, num(t) + 1, rate) - (num(t) + 1) * mean
    D = absv(mkred('max', 0, ny, dev)) + absv(mkred('min', 0, ny, dev))
    return F('2/3') * (log10(D) - F('9.05'))


def estimate(v):
    v.world()
    m = v.load(MM)
    n = v.int('n', 1)
    year, mag = v.array('year', n, dt='i'), v.array('mag', n)
    fz = v.freeze(year, mag)
    r = m.cumulative_moment(year, mag)
    v.unchanged('inputs', fz)
    v.ensure('largest and smallest deviation of the cumulative moment', num(r) == value(n, year.at, mag.at))


def bootstrap(seeded):
    def run(v):
        n, nb = v.int('n', 1), v.int('bootstraps', 2)
        year, mag, sig = v.array('year', n, dt='i'), v.array('mag', n), v.array('sigma', n)

        def cumulative(y, m):
            """contract of cumulative_moment (shown above)"""
            v.shape_is('years of a sample', y, n)
            v.shape_is('magnitudes of a sample', m, n)
            return value(n, y.at, m.at)
        v.world({MM + ':cumulative_moment': cumulative})
        m = v.load(MM)
        fz = v.freeze(year, mag, sig)
        if seeded:
            seed = v.int('seed', 0)
            a, s = m.cum_mo_uncertainty(year, mag, sig, nb, seed)
            sd = toreal(seed).real()
        else:
            a, s = m.cum_mo_uncertainty(year, mag, sig, nb)
            sd = UNSEEDED
        v.unchanged('inputs', fz)
        one = lambda b: value(n, year.at, lambda i: mag.at(i) + sig.at(i) * mknum(DEV(sd, zi(num(b)), zi(num(i)))))
        mean = mkred('sum', 0, nb, one) / nb
        v.ensure('mean of the estimates', num(a) == mean)
        v.ensure('standard deviation of the estimates',
                 num(s) == sqrt(mkred('sum', 0, nb, lambda b: (one(b) - mean) ** 2) / (nb - 1)))
    return run


UNITS = [Unit('C22', 'cumulative_moment', estimate, [MM + ':cumulative_moment'])] + [
    Unit('C22', 'cum_mo_uncertainty, ' + ('seeded' if s else 'not seeded'), bootstrap(s), [MM + ':cum_mo_uncertainty'],
         assumptions=['the deviates of numpy.random are independent standard normal deviates; with a given seed they are a '
                      'function of the seed and of their position']) for s in (True, False)]
