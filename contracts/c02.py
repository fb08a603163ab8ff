"""C02: optional values of the catalogue."""
from .catalogue import *

OPTIONAL = [c for c in COLUMNS if c not in COMPULSORY and c != 'Agency']


def reading(v):
    m = setup(v)
    t = Table(v, 'the file')
    v.assume(forall(t.n, t.valid))
    r = m.EqEntryReader(File(COLUMNS, t)).read_eq_catalog()
    for col in OPTIONAL:
        blank = num(0) if col == 'sigmaMw' else ''
        v.ensure_all('%s is kept or blanked' % col, t.n,
                     lambda i: is_(ops.getitem(ops.seq_index(r, i), col), ite(t.kept(i, col), t.val(i, col), blank)))
    v.ensure_all('the other fields are not changed', t.n, lambda i: land(
        ops.truth(ops.eq(ops.getitem(ops.seq_index(r, i), 'Agency'), t.cell(i, 'Agency'))),
        *[is_(ops.getitem(ops.seq_index(r, i), c), t.val(i, c)) for c in COMPULSORY]))


UNITS = [Unit('C02', 'read_eq_catalog', reading, [EC + ':EqEntryReader.' + f for f in (
    '__init__', 'read', 'read_eq_catalog', 'convert_values', 'no_check', 'check_positive_value', 'check_second',
    'check_epicentre_error_location', 'check_sigma_mw')])]
