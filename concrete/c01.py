import re
from .catfile import *

RULE = ('catalogues of 0 to 9 lines whose cells are numbers at, inside and beyond the edge of every range, in several notations, blank or '
        'no numbers; half of the catalogues have lines with one to three invalid compulsory values')


def gen(g):
    return {'rows': [row(g, g.pick(0, 0, .15, .5)) for _ in range(g.pick(0, 1, 2, g.int(1, 9)))], 'kind': g.pick('text', 'file')}


def run(case):
    import mtoolkit.eqcatalog as E
    clear()
    want = [expected(r) for r in case['rows']]
    first = next((i for i, w in enumerate(want) if w[0]), None)
    got, err = [], None
    with source(case['rows'], case['kind']) as s:
        try:
            for e in E.EqEntryReader(s).read():
                got.append(e)
        except E.EqEntryValidationError as x:
            err = x
    with source(case['rows'], case['kind']) as s:
        try:
            al = E.EqEntryReader(s).read_eq_catalog()
            need(err is None, 'read stops with %s, read_eq_catalog does not', err)
            need(len(al) == len(got), 'read gives %d events, read_eq_catalog %d', len(got), len(al))
            for i, e in enumerate(al):
                same_event(e, want[i][1], 'read_eq_catalog, line %d' % (i + 2), COMPULSORY)
        except E.EqEntryValidationError as x:
            need(err is not None and str(x) == str(err), 'read_eq_catalog stops with %s, read with %s', x, err)
    if first is None:
        need(err is None, 'valid lines, but reading stops: %s', err)
        need(len(got) == len(want), '%d events of %d lines', len(got), len(want))
    else:
        need(err is not None, 'line %d has invalid values of %s, but reading does not stop', first + 2, sorted(want[first][0]))
        need(len(got) == first, 'reading stops after %d events instead of %d', len(got), first)
        said = ' '.join(str(a) for a in err.args)
        words = set(re.findall(r'\w+', said))
        named = set(c for c in COLUMNS if c in words)
        bads = set(c.rstrip('?') for c in want[first][0])
        need(named and named <= bads, 'the error names %s, the invalid values of line %d are those of %s', sorted(named), first + 2, sorted(bads))
        need(str(first + 2) in re.findall(r'\d+', said), 'the error %r does not name line %d', said, first + 2)
    for i, e in enumerate(got):
        same_event(e, want[i][1], 'line %d' % (i + 2), COMPULSORY)
