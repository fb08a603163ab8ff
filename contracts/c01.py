"""C01: compulsory values of the catalogue."""
from .catalogue import *


def numbers(t):
    """numbers put into a text, whatever the case"""
    if isinstance(t, sym.Choice):
        a, b = numbers(t.a), numbers(t.b)
        return dict((i, x) for i, x in a.items() if i in b)
    if isinstance(t, ops.SStr):
        return numbers(t.t)
    if sym.isnum(t):
        return {num(t).z.get_id(): num(t).z}
    if not isinstance(t, z3.ExprRef):
        return {}
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = numbers(t.arg(1)), numbers(t.arg(2))
        return dict((i, x) for i, x in a.items() if i in b)
    if t.sort() == I:
        return {t.get_id(): t}
    out = {}
    for c in t.children():
        out.update(numbers(c))
    return out


def candidates(e):
    """numbers in the arguments of an exception"""
    out = {}
    for m in e.args:
        out.update(numbers(m))
    return [mknum(t) for t in out.values()]


def reading(v):
    m = setup(v)
    t = Table(v, 'the file')
    reader = m.EqEntryReader(File(COLUMNS, t))
    try:
        r = reader.read_eq_catalog()
    except m.EqEntryValidationError as e:
        f = e.args[0]
        v.ensure('the error names a compulsory field', lor(*[is_(f, c) for c in COMPULSORY]))
        ok = False
        for x in candidates(e):
            p = x - 2
            ok = lor(ok, land(p >= 0, p < t.n, lor(*[land(is_(f, c), not_(t.good(p, c))) for c in COMPULSORY]), forall(p, t.valid)))
        v.ensure('the error names the first line with an invalid value, and a field with an invalid value on it', ok)
        return
    v.ensure_all('reading ends only when every line is valid', t.n, t.valid)
    for col in COMPULSORY:
        v.ensure_all(col, t.n, lambda i: is_(ops.getitem(ops.seq_index(r, i), col), t.val(i, col)))


UNITS = [Unit('C01', 'read_eq_catalog', reading, [EC + ':EqEntryReader.' + f for f in (
    '__init__', 'read', 'read_eq_catalog', 'convert_values', 'check_positive_value', 'check_year', 'check_month', 'check_day', 'check_hour',
    'check_minute', 'check_longitude', 'check_latitude')] + [EC + ':EqEntryValidationError.__init__'])]
