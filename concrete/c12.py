import datetime
import numpy as np
from .base import *

RULE = ('date vectors of 1 to 8 dates (all months, month ends, leap years, centuries) compared with exact day counts; '
        'a case counts when decimal years and Julian dates, scalar and vector, were compared')
BEFORE = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def gen(g):
    n = g.size(1, 8)
    out = []
    for i in range(n):
        y = g.pick(g.int(1, 2400), g.int(1000, 2020), g.pick(1900, 2000, 2004, 1600, 1700, 100, 400, 1, 2001))
        mo = g.pick(g.int(1, 12), g.pick(1, 2, 3, 12))
        last = (datetime.date(y + (mo == 12), mo % 12 + 1, 1) - datetime.timedelta(1)).day
        d = g.pick(g.int(1, last), 1, last)
        out.append([y, mo, d, g.int(0, 23), g.int(0, 59), g.real(0, 59.99, 2)])
    return {'dates': out}


def run(case):
    from mtoolkit.scientific.catalogue_utilities import decimal_year, greg2julian
    D = arr(case['dates'])
    cols = [D[:, i].copy() for i in range(6)]
    r = decimal_year(cols[0], cols[1], cols[2])
    unchanged('decimal_year', [D[:, i] for i in range(3)], cols[:3])
    near(r, arr([y + (BEFORE[int(m) - 1] + d - 1) / 365. for y, m, d in D[:, :3]]),
         'decimal years of %s' % case['dates'], 0, 1e-9)
    j = greg2julian(*cols)
    unchanged('greg2julian', [D[:, i] for i in range(6)], cols)
    e = []
    for y, m, d, h, mi, s in D:
        e.append(datetime.date(int(y), int(m), int(d)).toordinal() + 1721424.5 + h / 24 + mi / 1440 + s / 86400)
    near(j, arr(e), 'Julian dates of %s' % case['dates'], 0, 1e-7)
    for k, row in enumerate(case['dates'][:3]):
        near(greg2julian(*row), e[k], 'Julian date of %s' % row, 0, 1e-7)
        near(greg2julian(*[float(x) for x in row]), e[k], 'Julian date of %s' % row, 0, 1e-7)
