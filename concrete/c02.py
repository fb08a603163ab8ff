from .catfile import *

RULE = ('catalogues of 1 to 6 lines with valid compulsory values and optional values at, inside and beyond the edges of what is acceptable, '
        'blank or no numbers, in every combination')


def gen(g):
    return {'rows': [row(g) for _ in range(g.pick(1, 1, g.int(1, 6)))], 'kind': g.pick('text', 'text', 'file')}


def run(case):
    import mtoolkit.eqcatalog as E
    clear()
    want = [expected(r) for r in case['rows']]
    if any(w[0] for w in want):
        raise Skip('an invalid line')
    with source(case['rows'], case['kind']) as s:
        try:
            got = E.EqEntryReader(s).read_eq_catalog()
        except E.EqEntryValidationError as x:
            bad('the compulsory values are valid, but reading stops: %s', x)
    need(len(got) == len(want), '%d events of %d lines', len(got), len(want))
    for i, e in enumerate(got):
        same_event(e, want[i][1], 'line %d' % (i + 2))
