from .catfile import *

RULE = ('one to three catalogues of 0 to 12 lines read one after the other, at the same time and by the workflow step, and header lines with '
        'blanks, missing, repeated, exchanged, misspelt and additional columns')


def header(g):
    h = list(COLUMNS)
    k = g.pick('good', 'blanks', 'missing', 'twice', 'exchange', 'case', 'more', 'empty', 'less', 'inner', 'trail')
    i, j = g.int(0, 24), g.int(0, 24)
    if k == 'blanks':
        h = [g.pick('', ' ', '  ', '\t') + c + g.pick('', ' ', '  ') for c in h]
    elif k == 'missing':
        del h[i]
    elif k == 'twice':
        h.insert(j, h[i])
    elif k == 'exchange':
        h[i], h[j] = h[j], h[i]
    elif k == 'case':
        h[i] = g.pick(h[i].lower(), h[i].upper(), h[i] + 's', h[i][:-1], '')
    elif k == 'more':
        h.append(g.pick('x', 'ML', ''))
    elif k == 'empty':
        h = ['']
    elif k == 'less':
        h = h[:i]
    elif k == 'inner':
        h[i] = h[i][:2] + ' ' + h[i][2:]
    elif k == 'trail':
        h = h[:j] + [''] + h[j:]
    return ','.join(h)


def gen(g):
    return {'files': [rows(g, g.pick(0, 1, 2, g.int(1, 12))) for _ in range(g.int(1, 3))],
            'kind': g.pick('text', 'file'), 'header': header(g), 'order': [g.int(0, 2) for _ in range(40)]}


def run(case):
    import mtoolkit.eqcatalog as E
    import mtoolkit.jobs as J
    import mtoolkit.workflow as W
    clear()
    files = case['files']
    want = [[expected(r) for r in f] for f in files]
    if any(w[0] for f in want for w in f):
        raise Skip('an invalid line')
    want = [[w[1] for w in f] for f in want]
    # the header
    good = [p.strip() for p in case['header'].split(',')] == COLUMNS
    with source(files[0], case['kind'], case['header']) as s:
        try:
            r = E.EqEntryReader(s).read_eq_catalog()
            need(good, 'the header %r is accepted', case['header'])
            check(r, want[0], 'catalogue')
        except E.MalformedCatalogError:
            need(not good, 'the standard header %r is rejected', case['header'])
    # one after the other, results held
    rs = []
    for f in files:
        with source(f, case['kind']) as s:
            rs.append(E.EqEntryReader(s).read_eq_catalog())
    for i, r in enumerate(rs):
        check(r, want[i], 'catalogue %d of %d' % (i + 1, len(rs)))
    # at the same time
    ss = [source(f, case['kind']) for f in files]
    its = [E.EqEntryReader(s).read() for s in ss]
    rs = [[] for _ in files]
    for k in case['order']:
        if k < len(its):
            rs[k].extend([e for e in [next(its[k], None)] if e is not None])
    for k, it in enumerate(its):
        rs[k].extend(it)
        check(rs[k], want[k], 'catalogue %d read together with others' % (k + 1))
    for s in ss:
        s.close()
    # the workflow step
    names = []
    for k, f in enumerate(files):
        names.append('job%d.csv' % k)
        with open(names[-1], 'w') as o:
            o.write(content(f))
    c = W.Context()
    for k, f in enumerate(files):
        c.config = {'eq_catalog_file': names[k]}
        J.read_eq_catalog(c)
        check(c.eq_catalog, want[k], 'catalogue read by the workflow')


def check(r, want, what):
    need(isinstance(r, list) and len(r) == len(want), '%s: %d events of %d lines', what, len(r), len(want))
    for i, e in enumerate(r):
        same_event(e, want[i], '%s, line %d' % (what, i + 2))
