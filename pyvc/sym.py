"""Symbolic scalars, hash-consed reductions and selections, ring normal form."""
import itertools
from fractions import Fraction
import z3

I, Rl, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_cnt = itertools.count()


class Unsupported(BaseException):
    """A construct outside the verifier's subset (never a verdict)."""


class PathEnd(BaseException):
    pass


RT = None       # set by rt.py


# ------------------------------------------------------------------ UFs
def _uf(name, *s):
    return z3.Function(name, *s)


SIN, COS, EXP, LN, SQRT, TAN = (_uf(n, Rl, Rl) for n in ('SIN', 'COS', 'EXP', 'LN', 'SQRT', 'TAN'))
ATAN2 = _uf('ATAN2', Rl, Rl, Rl)
POW = _uf('POW', Rl, Rl, Rl)
ROUND = _uf('ROUND', Rl, I)          # round half even
PI = z3.Real('PI')
ASIN = _uf('ASIN', Rl, Rl)
ACOS = _uf('ACOS', Rl, Rl)
ATAN = _uf('ATAN', Rl, Rl)


def rv(c):
    c = Fraction(c)
    return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)


def bvar(pref='k', sort=None):
    """A bindable variable (loop index, bound variable)."""
    return z3.Const('?%s%d' % (pref, next(_cnt)), sort if sort is not None else I)


def fresh(pref, sort=None):
    """A fresh constant; inside summarised loops a function of the loop indices."""
    sort = sort if sort is not None else I
    ks = list(RT.loop_index) if RT else []
    nm = '%s!%d' % (pref, next(_cnt))
    if not ks:
        return z3.Const(nm, sort)
    return z3.Function(nm, *([k.sort() for k in ks] + [sort]))(*ks)


_free_cache = {}


def free_bindables(e):
    """free '?..' constants of an expression, in a deterministic order"""
    key = e.get_id()
    hit = _free_cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('?'):
                    out.append(t)
            else:
                todo.extend(reversed(t.children()))
    _free_cache[key] = (e, out)
    return out


# ------------------------------------------------------------- scalar values
class SBool(object):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return RT.decide(self.z)

    def __hash__(self):
        return self.z.hash()

    def __and__(self, o):
        return mkbool(z3.And(self.z, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zb(o)))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.z == zb(o))
        return num(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __add__(self, o):
        return num(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return num(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return num(self) - o

    def __rsub__(self, o):
        return o - num(self)

    def __lt__(self, o):
        return num(self) < o

    def __le__(self, o):
        return num(self) <= o

    def __gt__(self, o):
        return num(self) > o

    def __ge__(self, o):
        return num(self) >= o

    def __repr__(self):
        return '<SBool %s>' % str(self.z)[:60]


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def zb(b):
    """to z3 Bool"""
    if isinstance(b, SBool):
        return b.z
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, (int, SNum)):
        return zb(num(b) != 0)
    if b.__class__.__name__ == 'SArr' and b.size1():
        return zb(b.scalar())
    try:
        import numpy
        if isinstance(b, numpy.bool_):
            return z3.BoolVal(bool(b))
    except ImportError:
        pass
    raise Unsupported('not a truth value: %r' % (b,))


def not_(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.z))
    return not x


class SNum(object):
    """Exact number: a rational constant or a z3 term; `int` says its Python kind."""
    __slots__ = ('c', '_z', 'int')

    def __init__(self, c, z, isint):
        self.c, self._z, self.int = c, z, isint

    @property
    def z(self):
        if self._z is None:
            self._z = z3.IntVal(int(self.c)) if self.int else rv(self.c)
        return self._z

    def real(self):
        if self.c is not None:
            return rv(self.c)
        return z3.ToReal(self.z) if self.int else self.z

    def __hash__(self):
        return hash(self.c) if self.c is not None else self.z.hash()

    def __repr__(self):
        return '<%s>' % (self.c if self.c is not None else str(self.z)[:80])

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        raise Unsupported('symbolic integer where Python needs a concrete one')

    __int__ = __index__

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported('symbolic number where Python needs a concrete float')

    def __bool__(self):
        if self.c is not None:
            return self.c != 0
        return bool(self != 0)

    def __format__(self, spec):
        return '<num>'

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __rpow__(self, o): return arith('**', o, self)
    def __neg__(self): return arith('-', 0 if self.int else Fraction(0), self)
    def __pos__(self): return self
    def __abs__(self): return absv(self)
    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)
    def __eq__(self, o): return compare('==', self, o)

    def __ne__(self, o):
        r = compare('==', self, o)
        return True if r is NotImplemented else not_(r)

    # the few numpy scalar methods/attributes in use
    def astype(self, t):
        return cast(self, t)

    def item(self):
        return self

    def __getitem__(self, i):
        if i == ():
            return self
        raise TypeError('scalar is not subscriptable')

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    def copy(self):
        return self


def isnum(x):
    return isinstance(x, (int, float, Fraction, SNum, SBool))


def num(x):
    """to SNum"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, bool):
        return SNum(Fraction(int(x)), None, True)
    if isinstance(x, int):
        return SNum(Fraction(x), None, True)
    if isinstance(x, Fraction):
        return SNum(x, None, False)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('nan/inf')
        return SNum(Fraction(repr(x)), None, False)
    if isinstance(x, SBool):
        return SNum(None, z3.If(x.z, z3.IntVal(1), z3.IntVal(0)), True)
    if isinstance(x, z3.ArithRef):
        return mknum(x)
    if x.__class__.__name__ == 'SArr' and x.size1():
        return num(x.scalar())
    if isinstance(x, Choice):
        return num(x.force())
    if hasattr(x, '__sym_num__'):
        return x.__sym_num__()
    try:
        import numpy
        if isinstance(x, numpy.integer):
            return num(int(x))
        if isinstance(x, numpy.floating):
            return num(float(x))
        if isinstance(x, numpy.bool_):
            return num(bool(x))
    except ImportError:
        pass
    raise TypeError('not a number: %r' % type(x))


def mknum(z):
    if z3.is_int_value(z):
        return SNum(Fraction(z.as_long()), None, True)
    if z3.is_rational_value(z):
        return SNum(Fraction(z.numerator_as_long(), z.denominator_as_long()), None, False)
    return SNum(None, z, z.sort() == I)


def arith(op, a, b):
    if a.__class__.__name__ in ('SArr', 'SList', 'Cell') or b.__class__.__name__ in ('SArr', 'SList', 'Cell'):
        if hasattr(b, '__sym_num__') and not hasattr(a, 'shape'):
            pass
        else:
            return NotImplemented
    try:
        a, b = num(a), num(b)
    except TypeError:
        return NotImplemented
    bothint = a.int and b.int and op in '+-*'
    if op == '**':
        return power(a, b)
    if a.c is not None and b.c is not None:
        if op == '+': c = a.c + b.c
        elif op == '-': c = a.c - b.c
        elif op == '*': c = a.c * b.c
        else:
            if b.c == 0:
                RT.event_zero_division()
            c = a.c / b.c
        return SNum(c, None, bothint)
    # neutral elements
    if op in '+-' and b.c is not None and b.c == 0 and (bothint or not a.int):
        return a
    if op == '+' and a.c is not None and a.c == 0 and (bothint or not b.int):
        return b
    if op == '*':
        for u, v in ((a, b), (b, a)):
            if u.c is not None and u.c == 1 and (bothint or not v.int):
                return v
            if u.c is not None and u.c == 0:
                return SNum(Fraction(0), None, bothint)
    if op == '/':
        if b.c is not None:
            if b.c == 0:
                RT.event_zero_division()
            return SNum(None, a.real() * rv(1 / b.c), False)
        if a.c is not None and a.c == 0:
            return SNum(Fraction(0), None, False)
        RT.division(b)
        return SNum(None, a.real() / b.real(), False)
    x, y = (a.z, b.z) if bothint else (a.real(), b.real())
    z = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op]()
    if bothint:
        # keep small linear integer terms folded (i + 1 - 1)
        z = z3.simplify(z) if z.num_args() <= 3 else z
        return mknum(z)
    return SNum(None, z, False)


def compare(op, a, b):
    if a.__class__.__name__ in ('SArr', 'SList', 'Cell') or b.__class__.__name__ in ('SArr', 'SList', 'Cell'):
        return NotImplemented
    try:
        a, b = num(a), num(b)
    except TypeError:
        return NotImplemented
    if a.c is not None and b.c is not None:
        return {'<': a.c < b.c, '<=': a.c <= b.c, '>': a.c > b.c, '>=': a.c >= b.c, '==': a.c == b.c}[op]
    if a.int and b.int:
        x, y = a.z, b.z
    else:
        x, y = a.real(), b.real()
    if x.eq(y):
        return op in ('<=', '>=', '==')
    z = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y}[op]()
    return mkbool(z)


def power(a, b):
    a, b = num(a), num(b)
    if b.c is not None:
        if a.c is not None and b.c.denominator == 1 and (a.c != 0 or b.c >= 0):
            return SNum(a.c ** int(b.c), None, a.int and b.int and b.c >= 0)
        if b.c.denominator == 1 and abs(b.c) <= 8:
            n = int(b.c)
            if n == 0:
                return SNum(Fraction(1), None, a.int and b.int)
            r = a
            for _ in range(abs(n) - 1):
                r = r * a
            if not (a.int and b.int):
                r = SNum(r.c, r.real() if r.c is None else None, False)
            return r if n > 0 else 1 / r
        if b.c == Fraction(1, 2):
            return sqrt(a)
        if b.c == Fraction(-1, 2):
            return 1 / sqrt(a)
    if a.c is not None and a.c > 0:
        return exp(ln(a) * b)
    return SNum(None, POW(a.real(), b.real()), False)


def fn1(uf, special):
    def f(x):
        x = num(x)
        if x.c is not None and x.c in special:
            return SNum(Fraction(special[x.c]), None, False)
        return SNum(None, uf(x.real()), False)
    return f


sin, cos, exp, ln, tan = (fn1(SIN, {0: 0}), fn1(COS, {0: 1}), fn1(EXP, {0: 1}), fn1(LN, {1: 0}), fn1(TAN, {0: 0}))
sqrt = fn1(SQRT, {0: 0, 1: 1, 4: 2})
asin, acos, atan = fn1(ASIN, {0: 0}), fn1(ACOS, {1: 0}), fn1(ATAN, {0: 0})


def log10(x):
    return ln(x) / ln(10)


def log2(x):
    return ln(x) / ln(2)


def atan2(y, x):
    return SNum(None, ATAN2(num(y).real(), num(x).real()), False)


def floor(x):
    """floor as an integer"""
    x = num(x)
    if x.c is not None:
        return SNum(Fraction(x.c.numerator // x.c.denominator), None, True)
    if x.int:
        return x
    return SNum(None, z3.ToInt(x.z), True)


def ceil(x):
    return 0 - floor(0 - num(x))


def trunc(x):
    x = num(x)
    if x.int:
        return x
    return ite(x >= 0, floor(x), 0 - floor(0 - x))


def rnd(x):
    x = num(x)
    if x.c is not None:
        return SNum(Fraction(round(x.c)), None, True)
    if x.int:
        return x
    return SNum(None, ROUND(x.z), True)


def toreal(x):
    x = num(x)
    return x if not x.int else (SNum(x.c, None, False) if x.c is not None else SNum(None, z3.ToReal(x.z), False))


def cast(x, t):
    if t in ('f', float):
        return toreal(x)
    if t in ('i', int):
        return trunc(x)
    if t in ('b', bool):
        return num(x) != 0 if not isinstance(x, (bool, SBool)) else x
    return x


def absv(x):
    x = num(x)
    if x.c is not None:
        return SNum(abs(x.c), None, x.int)
    return ite(x >= 0, x, 0 - x if x.int else Fraction(0) - x)


def ite(c, a, b):
    """merge two values under a condition; a, b may be numbers, booleans or equal objects"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    z = zb(c)
    if z3.is_true(z):
        return a
    if z3.is_false(z):
        return b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(z, zb(a), zb(b)))
    if isnum(a) and isnum(b):
        a, b = num(a), num(b)
        if a.c is not None and b.c is not None and a.c == b.c and a.int == b.int:
            return a
        if a.int and b.int:
            x, y = a.z, b.z
        else:
            x, y = a.real(), b.real()
        if x.eq(y):
            return mknum(x)
        return SNum(None, z3.If(z, x, y), a.int and b.int)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        r = [ite(c, x, y) for x, y in zip(a, b)]
        return type(a)(*r) if hasattr(a, '_fields') else type(a)(r)
    if type(a) in (str, type(None)) and type(a) is type(b) and a == b:
        return a
    if hasattr(a, '__sym_ite__'):
        return a.__sym_ite__(c, b)
    if hasattr(b, '__sym_ite__'):
        return b.__sym_ite__(not_(c), a)
    return Choice(c, a, b)


class Choice(object):
    """A value that is one of two objects; forks when it is used."""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def force(self):
        v = self.a if bool(self.c) else self.b
        return v.force() if isinstance(v, Choice) else v


def _forced(name):
    import operator
    f = getattr(operator, name)
    return lambda self, o: f(self.force(), o.force() if isinstance(o, Choice) else o)


def _forced_r(name):
    import operator
    f = getattr(operator, name)
    return lambda self, o: f(o, self.force())


for _n in ('lt', 'le', 'gt', 'ge', 'add', 'sub', 'mul', 'truediv', 'mod', 'floordiv', 'pow'):
    setattr(Choice, '__%s__' % _n, _forced(_n))
    if _n not in ('lt', 'le', 'gt', 'ge'):
        setattr(Choice, '__r%s__' % _n, _forced_r(_n))


def force(v):
    return v.force() if isinstance(v, Choice) else v


def land(*a):
    return mkbool(z3.And([zb(x) for x in a])) if a else True


def lor(*a):
    return mkbool(z3.Or([zb(x) for x in a])) if a else False


def implies(a, b):
    return mkbool(z3.Implies(zb(a), zb(b)))


def smax(a, b):
    return ite(num(a) >= num(b), a, b)


def smin(a, b):
    return ite(num(a) <= num(b), a, b)


def zi(x):
    """index as a z3 Int term"""
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    x = num(x)
    return x.z if x.int else z3.ToInt(x.z)


def subst(e, pairs):
    return z3.substitute(e, *pairs) if pairs else e


# --------------------------------------------------------- quantified formulas
def forall(n, body, lo=0, pat=None):
    """for all lo <= i < n: body(SNum i)"""
    i = bvar('q')
    b = zb(body(mknum(i)))
    if z3.is_true(b):
        return True
    return mkbool(z3.ForAll([i], z3.Implies(z3.And(zi(lo) <= i, i < zi(n)), b)))


def exists(n, body, lo=0):
    i = bvar('q')
    b = zb(body(mknum(i)))
    if z3.is_false(b):
        return False
    return mkbool(z3.Exists([i], z3.And(zi(lo) <= i, i < zi(n), b)))


def forall2(n, m, body):
    i, j = bvar('q'), bvar('q')
    b = zb(body(mknum(i), mknum(j)))
    if z3.is_true(b):
        return True
    return mkbool(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < zi(n), 0 <= j, j < zi(m)), b)))


# ------------------------------------------------- reductions and selections
class Red(object):
    """kind in sum/min/max/argmin/argmax/count over lo <= x < hi with guard(x)"""
    __slots__ = ('kind', 'params', 'x', 'lo', 'hi', 'guard', 'body', 'decl', 'name', 'prefix')


class Sel(object):
    """the increasing enumeration of the i in [0, n) with pred(i)"""
    __slots__ = ('params', 'x', 'n', 'pred', 'sel', 'rank', 'name', 'args', 'cnt')


REDS, SELS, _RKEY = {}, {}, {}
class _Extra(dict):
    version = 0

    def __setitem__(self, k, v):
        _Extra.version += 1
        dict.__setitem__(self, k, v)


EXTRA = _Extra()      # decl name -> axiom generator(args) -> list of z3 facts


def _canon(kind, parts, x):
    """canonical key: bound variable and parameters renamed by first occurrence"""
    params = []
    for p in parts:
        if p is None:
            continue
        for v in free_bindables(p):
            if not v.eq(x) and not any(v.eq(w) for w in params):
                params.append(v)
    ren = [(x, z3.Const('@x', x.sort()))] + [(v, z3.Const('@p%d' % i, v.sort())) for i, v in enumerate(params)]
    key = (kind,) + tuple('-' if p is None else subst(p, ren).sexpr() for p in parts)
    return params, key


def named_int(e, extra=None):
    """a constant (function of the bound variables of e) defined to be e; extra(self, e): facts about it"""
    e = norm(zi(e))
    params, key = _canon('len', (e,), z3.Const('@none', I))
    d = _RKEY.get(key)
    if d is None:
        d = _RKEY[key] = z3.Function('LEN_%d' % len(EXTRA), *([p.sort() for p in params] + [I]))
        ps = list(params)

        def ax(*args):
            me = d(*args)
            v = subst(e, list(zip(ps, args)))
            return [me == v] + (extra(me, v) if extra else [])
        EXTRA[d.name()] = ax
    return mknum(d(*params))


SIMP = [None]


def mkred(kind, lo, hi, f, guard=None, sort=None):
    """lo, hi: index terms; f, guard: z3 Int -> SNum/z3"""
    x = bvar('x')
    body = f(x)
    body = num(body)
    g = None if guard is None else zb(guard(x))
    if g is not None and z3.is_true(g):
        g = None
    if kind == 'count':
        kind = 'sum'
        body = num(1)
    lo, hi = norm(zi(lo)), norm(zi(hi))
    bz = norm(body.z)
    if g is not None:
        g = norm(g)
    if SIMP[0] is not None and not z3.is_int_value(hi):
        rng = [lo <= x, x < hi]
        bz = SIMP[0](bz, rng + ([g] if g is not None else []))
        if g is not None:
            g = SIMP[0](g, rng)
            if z3.is_true(g):
                g = None
    if kind == 'sum':
        return _mksum(lo, hi, x, bz, g, body.int)
    return mknum(_mkred1(kind, lo, hi, x, bz, g))


def _mksum(lo, hi, x, bz, g, isint):
    # linear: split into monomials, pull factors free of x out
    if z3.is_int_value(lo) and z3.is_int_value(hi):
        n = hi.as_long() - lo.as_long()
        if n <= 0:
            return SNum(Fraction(0), None, isint)
        if n <= 8:
            r = SNum(Fraction(0), None, isint)
            for k in range(lo.as_long(), hi.as_long()):
                t = mknum(subst(bz, [(x, z3.IntVal(k))]))
                if g is not None:
                    t = ite(mkbool(z3.simplify(subst(g, [(x, z3.IntVal(k))]))), t, 0 if isint else Fraction(0))
                r = r + t
            return r
    poly = topoly(bz)
    total = SNum(Fraction(0), None, isint)
    groups = {}
    for mono, c in poly.items():
        ins, outs = [], []
        for a, p in mono:
            (ins if any(v.eq(x) for v in free_bindables(ATOM[a])) else outs).append((a, p))
        groups.setdefault(tuple(ins), []).append((tuple(outs), c))
    for ins, outs in sorted(groups.items(), key=lambda kv: repr(kv[0])):
        inner = frompoly({ins: Fraction(1)}, I if isint else Rl)
        red = mknum(_mkred1('sum', lo, hi, x, inner, g))
        fac = mknum(frompoly(dict(outs), I if isint else Rl))
        total = total + fac * red
    return total


def _outer(parts, x):
    """maximal applications free of x, and bindable variables: what a reduction is a function of"""
    out, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            walk(t.body())
            return
        if not z3.is_app(t) or t.eq(x):
            return
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('?'):
                out.append(t)
            return
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not _has(t, x):
            out.append(t)
            return
        for c in t.children():
            walk(c)
    for p in parts:
        if p is not None:
            walk(p)
    return out


_hasc = {}


def _has(t, x):
    """does t contain x or a de Bruijn variable?"""
    key = (t.get_id(), x.get_id())
    h = _hasc.get(key)
    if h is not None and h[0].eq(t) and h[1].eq(x):
        return h[2]
    if z3.is_var(t) or t.eq(x):
        r = True
    elif z3.is_quantifier(t):
        r = True
    else:
        r = any(_has(c, x) for c in t.children())
    _hasc[key] = (t, x, r)
    return r


def _mkred1(kind, lo, hi, x, bz, g):
    # a bound that is a sum around a variable is a parameter of its own
    own = [b if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ADD and free_bindables(b) else None for b in (lo, hi)]
    parts = (lo if own[0] is None else None, hi if own[1] is None else None, bz, g)
    args = _outer(parts, x)
    params = [z3.Const('?@p%d' % i, a.sort()) for i, a in enumerate(args)]
    X = z3.Const('?@x', I)
    pairs = list(zip(args, params)) + [(x, X)]
    parts = [None if p is None else subst(p, pairs) for p in parts]
    for k, b in enumerate(own):
        if b is not None:
            parts[k] = z3.Const('?@p%d' % len(args), I)
            args.append(b)
            params.append(parts[k])
    key = (kind,) + tuple('-' if p is None else p.sexpr() for p in parts) + tuple(str(p.sort()) for p in params)
    r = _RKEY.get(key)
    if r is None:
        r = Red()
        r.kind, r.params, r.x = kind, params, X
        r.lo, r.hi, r.body, r.guard = parts
        r.name = '%s_%d' % (kind.upper(), len(REDS))
        rs = I if kind in ('argmin', 'argmax') else bz.sort()
        r.decl = z3.Function(r.name, *([p.sort() for p in params] + [rs])) if params else None
        REDS[r.name] = r
        _RKEY[key] = r
        if not params:
            r.decl = z3.Const(r.name, rs).decl()
    return r.decl(*args) if args else r.decl()


def mksel(n, pred):
    """pred: z3 Int -> bool-like.  Returns Sel bound to the current parameters."""
    x = bvar('x')
    p = norm(zb(pred(x)))
    n = norm(zi(n))
    if SIMP[0] is not None and not z3.is_int_value(n):
        p = SIMP[0](p, [0 <= x, x < n])
    params, key = _canon('sel', (n, p), x)
    r = _RKEY.get(key)
    if r is None:
        r = Sel()
        r.params, r.x, r.n, r.pred = params, x, n, p
        r.name = 'SEL_%d' % len(SELS)
        r.sel = z3.Function(r.name, *([q.sort() for q in params] + [I, I]))
        r.rank = z3.Function(r.name.replace('SEL', 'RANK'), *([q.sort() for q in params] + [I, I]))
        SELS[r.sel.name()] = SELS[r.rank.name()] = r
        _RKEY[key] = r
    return BoundSel(r, params)


class BoundSel(object):
    __slots__ = ('s', 'args')

    def __init__(self, s, args):
        self.s, self.args = s, args

    @property
    def key(self):
        return (self.s.name,) + tuple(a.get_id() for a in self.args)

    @property
    def n(self):
        return subst(self.s.n, list(zip(self.s.params, self.args)))

    def pred(self, i):
        return subst(self.s.pred, list(zip(self.s.params, self.args)) + [(self.s.x, zi(i))])

    def sel(self, k):
        k = zi(k)
        if z3.is_app(k) and k.decl().eq(self.s.rank) and all(a.eq(b) for a, b in zip(k.children(), self.args)):
            return k.children()[-1]
        return self.s.sel(*(list(self.args) + [k]))

    def rank(self, i):
        i = zi(i)
        if z3.is_app(i) and i.decl().eq(self.s.sel) and all(a.eq(b) for a, b in zip(i.children(), self.args)):
            return i.children()[-1]
        return self.s.rank(*(list(self.args) + [i]))

    def count(self):
        return mkred('count', 0, self.n, lambda x: 1, lambda x: self.pred(x))

    def same(self, o):
        return o is not None and self.key == o.key


# --------------------------------------------------------------- normal form
ATOM = {}            # sexpr key -> canonical expr
_normc, _polyc = {}, {}


def atom(e):
    k = e.sexpr() if e.num_args() < 1 else _akey(e)
    if k not in ATOM:
        ATOM[k] = e
    return k


_akc = {}


def _akey(e):
    hit = _akc.get(e.get_id())
    if hit is not None and hit[0].eq(e):
        return hit[1]
    k = e.sexpr()
    if len(k) > 200:
        import hashlib
        k = k[:40] + hashlib.md5(k.encode()).hexdigest()
    _akc[e.get_id()] = (e, k)
    return k


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mono_mul(m, n):
    d = dict(m)
    for a, p in n:
        q = d.get(a, 0) + p
        if q:
            d[a] = q
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _fix_exp(mono):
    """merge EXP atoms of a monomial: EXP(a)^p EXP(b)^q = EXP(p a + q b);
    SQRT(a)^2 = a is not applied (needs a >= 0)"""
    ex = [(a, p) for a, p in mono if _isexp(a)]
    if len(ex) == 0 or (len(ex) == 1 and ex[0][1] == 1):
        return mono, None
    rest = tuple((a, p) for a, p in mono if not _isexp(a))
    arg = {}
    for a, p in ex:
        arg = padd(arg, topoly(ATOM[a].arg(0)), p)
    return rest, arg


def _isexp(a):
    e = ATOM[a]
    return z3.is_app(e) and e.num_args() == 1 and e.decl().eq(EXP)


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            mono = _mono_mul(m, n)
            rest, arg = _fix_exp(mono)
            if arg is not None:
                if arg:
                    e = EXP(frompoly(arg, Rl))
                    mono = _mono_mul(rest, ((atom(e), 1),))
                else:
                    mono = rest
            v = r.get(mono, 0) + c * d
            if v:
                r[mono] = v
            else:
                r.pop(mono, None)
    return r


def pinv(a):
    if len(a) == 1:
        (m, c), = a.items()
        inv = tuple((x, -p) for x, p in m)
        rest, arg = _fix_exp(inv)
        if arg is not None:
            inv = _mono_mul(rest, ((atom(EXP(frompoly(arg, Rl))), 1),))
        return {inv: 1 / c}
    lead = min(a)
    c = a[lead]
    mon = {m: v / c for m, v in a.items()}
    e = frompoly(mon, Rl)
    return {((atom(e), -1),): 1 / c}


MAXP = 400


def topoly(e):
    key = e.get_id()
    hit = _polyc.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = _topoly(e)
    _polyc[key] = (e, r)
    return r


def _const(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def _topoly(e):
    c = _const(e)
    if c is not None:
        return {(): c} if c else {}
    if not z3.is_app(e):
        return {((atom(e), 1),): Fraction(1)}
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for x in ch:
            r = padd(r, topoly(x))
        return r
    if k == z3.Z3_OP_SUB:
        r = topoly(ch[0])
        for x in ch[1:]:
            r = padd(r, topoly(x), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, topoly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = topoly(ch[0])
        for x in ch[1:]:
            q = topoly(x)
            if len(r) * len(q) > MAXP:
                return {((atom(_rebuild(e)), 1),): Fraction(1)}
            r = pmul(r, q)
        return r
    if k == z3.Z3_OP_DIV:
        d = topoly(ch[1])
        if not d:
            return {((atom(_rebuild(e)), 1),): Fraction(1)}
        n = topoly(ch[0])
        if len(d) == 1 or True:
            q = pinv(d)
            if n == d:
                return {(): Fraction(1)}
            if len(n) * len(q) > MAXP:
                return {((atom(_rebuild(e)), 1),): Fraction(1)}
            return pmul(n, q)
    if k == z3.Z3_OP_TO_REAL:
        return topoly(ch[0])
    if k == z3.Z3_OP_TO_INT:
        p = topoly(ch[0])
        # split off the integer-valued part
        ip, rp = {}, {}
        for m, v in p.items():
            if v.denominator == 1 and all(ATOM[a].sort() == I and q > 0 for a, q in m):
                ip[m] = v
            else:
                rp[m] = v
        if not rp:
            return ip
        c0 = rp.pop((), None)
        if c0 is not None:
            fl = Fraction(c0.numerator // c0.denominator)
            ip = padd(ip, {(): fl} if fl else {})
            if c0 - fl:
                rp[()] = c0 - fl
        if not rp:
            return ip
        if set(rp) == {()}:
            return ip
        return padd(ip, {((atom(z3.ToInt(frompoly(rp, Rl))), 1),): Fraction(1)})
    if k == z3.Z3_OP_ITE:
        c_, a_, b_ = norm(ch[0]), norm(ch[1]), norm(ch[2])
        if z3.is_true(c_):
            return topoly(a_)
        if z3.is_false(c_):
            return topoly(b_)
        if a_.eq(b_):
            return topoly(a_)
        return {((atom(z3.If(c_, a_, b_)), 1),): Fraction(1)}
    if k == z3.Z3_OP_UNINTERPRETED and ch:
        args = [norm(x) for x in ch]
        d = e.decl()
        if d.eq(SIN) or d.eq(COS):
            p = topoly(args[0])
            if not p:
                return {} if d.eq(SIN) else {(): Fraction(1)}
            if p[min(p)] < 0:
                neg = frompoly(padd({}, p, -1), Rl)
                return {((atom(d(neg)), 1),): Fraction(-1 if d.eq(SIN) else 1)}
        if d.eq(EXP):
            p = topoly(args[0])
            if not p:
                return {(): Fraction(1)}
            # EXP(LN(a) * k + r) with integer k: a^k EXP(r)
        return {((atom(d(*args)), 1),): Fraction(1)}
    if not ch:
        return {((atom(e), 1),): Fraction(1)}
    return {((atom(_rebuild(e)), 1),): Fraction(1)}


def _rebuild(e):
    ch = [norm(x) for x in e.children()]
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_DIV:
        return ch[0] / ch[1]
    return e.decl()(*ch)


def frompoly(p, sort):
    """canonical expression of a polynomial"""
    if not p:
        return z3.IntVal(0) if sort == I else z3.RealVal(0)
    terms = []
    for m in sorted(p):
        c = p[m]
        pos, neg = [], []
        for a, q in m:
            t = ATOM[a]
            if sort == Rl and t.sort() == I:
                t = z3.ToReal(t)
            elif sort == I and t.sort() == Rl:
                return z3.ToInt(frompoly(p, Rl))
            (pos if q > 0 else neg).extend([t] * abs(q))
        if sort == I and (neg or c.denominator != 1):
            return z3.ToInt(frompoly(p, Rl))
        t = None
        for x in pos:
            t = x if t is None else t * x
        d = None
        for x in neg:
            d = x if d is None else d * x
        cz = z3.IntVal(int(c)) if sort == I else rv(c)
        if t is None:
            t = cz
        elif c != 1:
            t = cz * t
        if d is not None:
            t = t / d
        terms.append(t)
    r = terms[0]
    if len(terms) > 1:
        r = z3.Sum(terms) if len(terms) > 2 else terms[0] + terms[1]
    return r


def norm(e):
    key = e.get_id()
    hit = _normc.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = _norm(e)
    _normc[key] = (e, r)
    return r


def _norm(e):
    s = e.sort()
    if s == I or s == Rl:
        return frompoly(topoly(e), s)
    if s == B:
        if z3.is_quantifier(e):
            return e
        k = e.decl().kind()
        ch = e.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or \
                (k == z3.Z3_OP_EQ and ch[0].sort() in (I, Rl)):
            a, b = ch
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
            d = padd(topoly(a), topoly(b), -1)          # a - b (<=|<|=) 0
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            iseq = k == z3.Z3_OP_EQ
            if not d or set(d) == {()}:
                c = d.get((), Fraction(0))
                return z3.BoolVal(c == 0 if iseq else (c < 0 if strict else c <= 0))
            allint = all(ATOM[x].sort() == I and q > 0 for m in d for x, q in m)
            lead = min(m for m in d if m != ())
            sc = abs(d[lead]) if not iseq else d[lead]
            d = {m: v / sc for m, v in d.items()}
            if allint:
                den = 1
                for v in d.values():
                    den = den * v.denominator // __import__('math').gcd(den, v.denominator)
                d = {m: v * den for m, v in d.items()}
                if strict:
                    d = padd(d, {(): Fraction(1)})
                    strict = False
                if iseq and d[lead] < 0:
                    d = padd({}, d, -1)
                srt = I
            else:
                srt = Rl
            c = d.pop((), Fraction(0))
            lhs = frompoly(d, srt)
            rhs = z3.IntVal(int(-c)) if srt == I and c.denominator == 1 else rv(-c)
            if srt == I and c.denominator != 1:
                lhs = z3.ToReal(lhs)
            # orientation: keep the leading coefficient positive
            if not iseq and d[lead] < 0:
                d2 = padd({}, d, -1)
                lhs = frompoly(d2, srt)
                rhs = z3.IntVal(int(c)) if srt == I else rv(c)
                return lhs > rhs if strict else lhs >= rhs
            if iseq:
                return lhs == rhs
            return lhs < rhs if strict else lhs <= rhs
        if k == z3.Z3_OP_NOT:
            a = norm(ch[0])
            if z3.is_true(a):
                return z3.BoolVal(False)
            if z3.is_false(a):
                return z3.BoolVal(True)
            if z3.is_app(a):
                ka = a.decl().kind()
                if ka == z3.Z3_OP_NOT:
                    return a.arg(0)
                if ka in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                    x, y = a.children()
                    return norm({z3.Z3_OP_LE: x > y, z3.Z3_OP_GE: x < y, z3.Z3_OP_LT: x >= y,
                                 z3.Z3_OP_GT: x <= y}[ka])
            return z3.Not(a)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            unit, zero = (True, False) if k == z3.Z3_OP_AND else (False, True)
            xs = {}
            for c in ch:
                c = norm(c)
                if z3.is_app(c) and c.decl().kind() == k:
                    sub = c.children()
                else:
                    sub = [c]
                for q in sub:
                    if (z3.is_true(q) and zero) or (z3.is_false(q) and not zero):
                        return z3.BoolVal(zero)
                    if z3.is_true(q) or z3.is_false(q):
                        continue
                    xs[q.sexpr()] = q
            if not xs:
                return z3.BoolVal(unit)
            qs = [xs[q] for q in sorted(xs)]
            if len(qs) == 1:
                return qs[0]
            return z3.And(qs) if k == z3.Z3_OP_AND else z3.Or(qs)
        if k == z3.Z3_OP_IMPLIES:
            return norm(z3.Or(z3.Not(ch[0]), ch[1]))
        if k == z3.Z3_OP_ITE:
            c_, a_, b_ = (norm(x) for x in ch)
            if z3.is_true(c_):
                return a_
            if z3.is_false(c_):
                return b_
            if a_.eq(b_):
                return a_
            return norm(z3.And(z3.Or(z3.Not(c_), a_), z3.Or(c_, b_))) \
                if z3.is_true(a_) or z3.is_false(a_) or z3.is_true(b_) or z3.is_false(b_) else z3.If(c_, a_, b_)
        if ch:
            return e.decl()(*[norm(x) for x in ch])
    return e
