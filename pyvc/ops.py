"""Operations the instrumented code calls (the `_rt` object) and shimmed builtins."""
import builtins
import types
import z3
from fractions import Fraction
from . import sym, rt as _rtm, arr as _arr, npm
from .rt import RT, Seg, GenList, Ret, BREAK, OObj, truth, ln, Poison, vsubst
from .arr import SArr, bop
from .sym import (SNum, SBool, Unsupported, num, zb, zi, mknum, mkbool, ite, land, lor, norm, subst, bvar,
                  isnum, not_ as _not, mkred, force, toreal, I, Rl, B, Choice)

_LIT = {}


def lit(s):
    r = _LIT.get(s)
    if r is None:
        r = _LIT[s] = SNum(Fraction(s), None, False)
    return r


# ------------------------------------------------------------------ strings
S = z3.DeclareSort('Str')
_LITS = {}


def slit(s):
    r = _LITS.get(s)
    if r is None:
        r = _LITS[s] = z3.Const('lit:%s' % s, S)
    return r


def is_lit(t):
    return z3.is_const(t) and t.decl().name().startswith('lit:')


def str_eq(a, b):
    """equality of two terms of sort Str"""
    if a.eq(b):
        return True
    if is_lit(a) and is_lit(b):
        return False
    return mkbool(a == b)


class SStr(object):
    """A string known only as a term (sort Str)."""
    __slots__ = ('t', 'info')

    def __init__(self, t, info=None):
        self.t, self.info = t, info

    def __eq__(self, o):
        o = force(o)
        if isinstance(o, SStr):
            return str_eq(self.t, o.t)
        if isinstance(o, str):
            return str_eq(self.t, slit(o))
        if hasattr(o, '__sym_num__'):
            return NotImplemented
        return False

    def __ne__(self, o):
        return _not(self == o)

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        return bool(self.__sym_truth__())

    def __sym_truth__(self):
        return _not(self == '')

    def __sym_subst__(self, pairs):
        t = subst(self.t, pairs)
        i = self.info
        if i is not None:
            i = vsubst(i, pairs)
        return SStr(t, i)

    def __sym_ite__(self, c, o):
        if isinstance(o, str):
            o = SStr(slit(o))
        if isinstance(o, SStr):
            return SStr(z3.If(zb(c), self.t, o.t))
        return Choice(c, self, o)

    def __sym_same__(self, o):
        return isinstance(o, SStr) and self.t.eq(o.t)

    def _call(self, name, args):
        if name in ('strip',) and not args:
            f = z3.Function('STRIP', S, S)
            if z3.is_app(self.t) and self.t.decl().eq(f):
                return self
            return SStr(f(self.t))
        raise Unsupported('str.%s of a symbolic string' % name)

    def strip(self):
        return self._call('strip', ())

    def __str__(self):
        return '<str>'

    def __format__(self, s):
        return '<str>'

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('str.%s of a symbolic string' % a)

    def __repr__(self):
        return '<SStr %s>' % self.t


def isstr(x):
    return isinstance(x, (str, SStr))


NUMTEXT = z3.Function('TEXT', Rl, S)


# ------------------------------------------------------------------ arithmetic
def _hasarr(a, b):
    return isinstance(a, SArr) or isinstance(b, SArr)


def div(a, b):
    a, b = force(a), force(b)
    if _hasarr(a, b):
        return bop('/', a, b)
    if isinstance(a, (list, tuple, str, dict)) or a is None or b is None or isstr(a) or isstr(b):
        raise TypeError('unsupported operand type(s) for /')
    if type(a) in (int, bool):
        a = num(a)
    return a / b


def floordiv(a, b):
    a, b = force(a), force(b)
    if _hasarr(a, b):
        return bop('//', a, b)
    return _arr.floordiv(a, b)


def mod(a, b):
    a, b = force(a), force(b)
    if isinstance(a, str):
        return format_percent(a, b)
    if _hasarr(a, b):
        return bop('%', a, b)
    return _arr.modulo(a, b)


def pow(a, b, *m):
    a, b = force(a), force(b)
    if _hasarr(a, b):
        return bop('**', a, b)
    return sym.power(a, b)


def _inplace(op, f):
    def g(a, b):
        if isinstance(a, SArr):
            return a.inplace(op, b)
        return f(a, b)
    return g


augdiv, augmod, augpow, augfloordiv = (_inplace('/', div), _inplace('%', mod), _inplace('**', pow),
                                       _inplace('//', floordiv))


def symbolic_in(v, depth=3):
    v = force(v)
    if isinstance(v, SNum):
        return v.c is None
    if isinstance(v, (SBool, SStr, OObj, SArr, Seg)) or hasattr(v, '__sym_num__'):
        return True
    if isinstance(v, (list, tuple)) and depth:
        return any(symbolic_in(x, depth - 1) for x in v)
    return False


def _plain(v):
    """Python values for formatting of concrete numbers"""
    if isinstance(v, SNum):
        return int(v.c) if v.int else float(v.c)
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, tuple):
        return tuple(_plain(x) for x in v)
    if isinstance(v, list):
        return [_plain(x) for x in v]
    return v


FMT = {}


def fmt_term(fmt, args):
    """the text of fmt with these arguments, as a function of them"""
    zs = []
    for a in args:
        a = force(a)
        if isinstance(a, SStr):
            zs.append(a.t)
        elif isinstance(a, str):
            zs.append(slit(a))
        elif isinstance(a, (SBool, bool)):
            zs.append(zb(a))
        elif isnum(a):
            zs.append(toreal(num(a)).real())
        elif isinstance(a, OObj):
            zs.append(a.t)
        elif a is None:
            zs.append(slit('None'))
        elif hasattr(a, '__sym_num__'):
            zs.append(toreal(num(a)).real())
        else:
            return None
    if not zs:
        return SStr(slit(fmt))
    f = z3.Function('FORMAT:%s' % fmt, *([z.sort() for z in zs] + [S]))
    return SStr(f(*zs), None)


def format_percent(f, args):
    targs = args if isinstance(args, tuple) else (args,)
    if not symbolic_in(targs):
        try:
            return f % _plain(args)
        except (TypeError, ValueError):
            raise
    if isinstance(args, dict):
        return '<formatted>'
    if f == '%s' and len(targs) == 1:
        return str_(targs[0])
    from . import lib
    r = lib.format_text(f, targs)
    if r is not None:
        return r
    t = fmt_term(f, targs)
    return t if t is not None else '<formatted>'


# ------------------------------------------------------------------ logic
def not_(v):
    v = force(v)
    if isinstance(v, (bool, SBool)):
        return _not(v)
    t = truth(v)
    return _not(t) if isinstance(t, (bool, SBool)) else (not t)


def eq(a, b):
    a, b = force(a), force(b)
    if a is b and not isinstance(a, SArr):
        return True
    if isinstance(a, SArr) or isinstance(b, SArr):
        if a is None or b is None:
            return False
        return bop('==', a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        return eq_seq(a, b)
    if isinstance(a, dict) and isinstance(b, dict) and type(a).__eq__ is dict.__eq__:
        if set(a) != set(b):
            return False
        return land(*[eq(a[k], b[k]) for k in a])
    if isnum(a) and isnum(b):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return mkbool(norm(zb(a) == zb(b)))
        return num(a) == num(b)
    if (isnum(a) and isstr(b)) or (isstr(a) and isnum(b)):
        return False
    r = a == b
    if isinstance(r, SBool):
        return r
    return r


def eq_seq(a, b):
    if not any(isinstance(x, Seg) for x in a) and not any(isinstance(x, Seg) for x in b):
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    la, lb = ln(a), ln(b)
    c = num(la) == num(lb)
    if c is False:
        return False
    if not isinstance(c, bool) and not RT.decide(zb(c)):
        return False
    for l in (la, lb):
        l = num(l)
        if l.c is not None and l.c <= 64:
            return land(*[eq(at(list(a), z3.IntVal(i)), at(list(b), z3.IntVal(i))) for i in range(int(l.c))])
    if len(a) != 1 or len(b) != 1:
        raise Unsupported('lists of symbolic length made of several parts compared')
    x = bvar('q')
    e = zb(truth(eq(at(list(a), x), at(list(b), x))))
    return mkbool(norm(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < zi(la)), e))))


def noteq(a, b):
    a, b = force(a), force(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return not_arr(eq(a, b))
    t = type(a)
    if t.__module__ in RT.modules and hasattr(t, '__ne__') and t.__ne__ is not object.__ne__:
        return a != b
    return not_(eq(a, b))


def not_arr(r):
    if isinstance(r, SArr):
        return ~r
    return _not(r) if isinstance(r, (bool, SBool)) else not r


def in_(x, c):
    x, c = force(x), force(c)
    if hasattr(c, '__sym_contains__'):
        return c.__sym_contains__(x)
    if isinstance(c, str):
        if isinstance(x, SStr):
            raise Unsupported('substring test')
        return x in c
    if isinstance(c, (dict, type({}.keys()), set, frozenset)):
        if isinstance(x, (SStr,)):
            return lor(*[eq(x, k) for k in list(c)]) if len(c) else False
        if isinstance(x, str) or x is None:
            return x in c
        return lor(*[eq(x, k) for k in list(c)]) if len(c) else False
    if isinstance(c, SArr):
        return npm.any(bop('==', c, x))
    r = []
    for p in RT.parts(c):
        if p[0] == 'c':
            e = eq(x, p[1])
            r.append(e if isinstance(e, (bool, SBool)) else truth(e))
        else:
            q = bvar('q')
            b = zb(truth(eq(x, p[2](q))))
            r.append(mkbool(z3.Exists([q], z3.And(0 <= q, q < zi(p[1]), b))))
    if any(y is True for y in r):
        return True
    return lor(*r) if r else False


_CMP = {'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
        'Eq': lambda a, b: eq(a, b), 'NotEq': lambda a, b: noteq(a, b), 'In': lambda a, b: in_(a, b),
        'NotIn': lambda a, b: not_(in_(a, b)), 'Is': lambda a, b: a is b, 'IsNot': lambda a, b: a is not b}


def chain(ops, a, *rest):
    acc = True
    for op, th in zip(ops.split(','), rest):
        b = th()
        r = _CMP[op](force(a), force(b))
        if isinstance(r, SArr):
            r = truth(r)
        if r is False or (isinstance(r, SBool) and z3.is_false(norm(r.z))):
            return False
        acc = land(acc, r) if acc is not True else r
        a = b
    return acc


# ------------------------------------------------------------------ items
def seg_at(s, i):
    v = s.f(norm(zi(i)))
    return RT.materialise(s, v)


def at(l, i):
    """item of a list (with segments) at z3/py index i, no bounds check, i >= 0"""
    iz = norm(zi(i))
    off = z3.IntVal(0)
    cands = []
    for x in l:
        if isinstance(x, Seg):
            nxt = norm(off + zi(x.n))
            cands.append((off, nxt, x))
        else:
            nxt = norm(off + 1)
            cands.append((off, nxt, x))
        off = nxt
    out = []
    for lo, hi, x in cands:
        c = norm(z3.And(iz >= lo, iz < hi))
        if z3.is_false(c):
            continue
        th = (lambda x=x, lo=lo: seg_at(x, iz - lo)) if isinstance(x, Seg) else (lambda x=x: x)
        if z3.is_true(c):
            return th()
        out.append((norm(iz < hi), th))
    if not out:
        raise IndexError('list index out of range')
    r = out[-1][1]()
    for c, th in reversed(out[:-1]):
        r = ite(mkbool(c), th(), r)
    return r


def seq_index(o, i):
    n = ln(o)
    i = num(i)
    if not i.int:
        raise TypeError('list indices must be integers or slices, not float')
    if i.c is not None and int(i.c) < 0:
        c = int(i.c)
        # from the end
        if isinstance(n, int):
            if -c > n:
                raise IndexError('list index out of range')
            return o[n + c]
        tail = 0
        for x in reversed(o):
            if isinstance(x, Seg):
                break
            tail += 1
        if -c <= tail:
            return o[c]
        e = num(n) + c
        _arr.bound(e >= 0, 'list index out of range')
        return at(o, e)
    if i.c is not None:
        c = int(i.c)
        if isinstance(n, int) and not any(isinstance(x, Seg) for x in o):
            return o[c]
        head = 0
        for x in o:
            if isinstance(x, Seg):
                break
            head += 1
        if c < head:
            return o[c]
        _arr.bound(num(n) > c, 'list index out of range')
        return at(o, c)
    _arr.bound(land(i >= 0 - num(n), i < n), 'list index out of range')
    if not _arr.neg_impossible(norm(i.z)):
        if RT.decide(zb(i < 0)):
            i = i + n
    return at(o, i)


def seq_slice(o, s):
    if s.step is not None and num(s.step).c != 1:
        if num(s.step).c == -1 and s.start is None and s.stop is None:
            out = []
            for x in reversed(list(o)):
                if isinstance(x, Seg):
                    f, n = x.f, x.n
                    out.append(Seg(n, lambda i, f=f, n=n: f(norm(zi(n) - 1 - zi(i)))))
                else:
                    out.append(x)
            return type(o)(out)
        if not any(isinstance(x, Seg) for x in o):
            return o[_cslice(s)]
        k = num(force(s.step)).c
        if k is None or k < 2 or k.denominator != 1:
            raise Unsupported('slice step of a list')
        n, k = ln(o), int(k)
        lo = num(_arr.clip_idx(force(s.start), n, 0))
        m = num(_arr.clip_idx(force(s.stop), n, n)) - lo
        if not _arr.nonneg(m):
            m = ite(m >= 0, m, 0)
        src = list(o)
        return type(o)([Seg(mknum(norm((zi(m) + (k - 1)) / k)), lambda i: at(src, norm(zi(i) * k + zi(lo))))])
    n = ln(o)
    symb = any(isinstance(x, Seg) for x in o)
    if not symb and all(v is None or num(force(v)).c is not None for v in (s.start, s.stop)):
        return o[_cslice(s)]
    if s.start is None and s.stop is None:
        return type(o)(o)
    lo = _arr.clip_idx(force(s.start), n, 0)
    hi = _arr.clip_idx(force(s.stop), n, n)
    lo, hi = num(lo), num(hi)
    if lo.c is not None and not any(isinstance(x, Seg) for x in o[:int(lo.c)]):
        if norm(zi(hi)).eq(norm(zi(n))):
            return type(o)(o[int(lo.c):])
        if hi.c is not None and not any(isinstance(x, Seg) for x in o[:int(hi.c)]):
            return type(o)(o[int(lo.c):int(hi.c)])
    m = hi - lo
    if not _arr.nonneg(m):
        m = ite(m >= 0, m, 0)
    src = list(o)
    return type(o)([Seg(m, lambda i: at(src, zi(i) + zi(lo)))])


def _cslice(s):
    f = lambda v: None if v is None else int(num(force(v)).c)
    return slice(f(s.start), f(s.stop), f(s.step))


def getitem(o, i):
    o = force(o)
    if isinstance(i, tuple):
        i = tuple(force(x) for x in i)
    else:
        i = force(i)
    if isinstance(o, SArr):
        return o[i]
    if isinstance(o, GenList):
        raise TypeError("'generator' object is not subscriptable")
    if isinstance(o, (list, tuple)):
        if isinstance(i, slice):
            return seq_slice(o, i)
        if isinstance(i, SArr) and i.size1():
            i = i.scalar()
        if isinstance(i, int) and not any(isinstance(x, Seg) for x in o):
            return o[i]
        if isnum(i):
            return seq_index(o, i)
        return o[i]
    if isinstance(o, dict):
        if isinstance(i, SStr):
            for k in list(o):
                if isstr(k):
                    e = eq(i, k)
                    if e is True or (isinstance(e, SBool) and bool(e)):
                        return o[k]
            raise KeyError('<symbolic>')
        return o[i]
    if isinstance(o, str):
        if isinstance(i, slice):
            return o[_cslice(i)]
        return o[int(num(i))]
    if isinstance(o, SNum) and i == ():
        return o
    if isinstance(o, (SNum, SBool, int, float, Fraction)) and not isinstance(o, type):
        raise TypeError('number is not subscriptable')
    return o[i]


def setitem(o, i, v):
    o = force(o)
    if isinstance(i, tuple):
        i = tuple(force(x) for x in i)
    else:
        i = force(i)
    if isinstance(o, list):
        if isinstance(i, slice):
            if any(isinstance(x, Seg) for x in o) and not (i.start is None and i.stop is None):
                raise Unsupported('slice assignment')
            if i.start is None and i.stop is None and i.step is None:
                o[:] = seq_list(v)
                return
            o[_cslice(i)] = v
            return
        k = num(i)
        if not k.int:
            raise TypeError('list indices must be integers')
        if k.c is None:
            n = len(o)
            if any(isinstance(x, Seg) for x in o):
                if len(o) == 1:
                    s = o[0]
                    _arr.bound(land(k >= 0 - num(s.n), k < s.n), 'list assignment index out of range')
                    if not _arr.neg_impossible(norm(k.z)):
                        k = ite(k < 0, k + s.n, k)
                    f, kz = s.f, zi(k)
                    o[0] = Seg(s.n, lambda j: ite(mkbool(norm(zi(j) == kz)), v, f(j)))
                    return
                raise Unsupported('symbolic item assignment')
            _arr.bound(land(k >= -n, k < n), 'list assignment index out of range')
            for j in range(n):
                o[j] = ite(lor(k == j, k == j - n), v, o[j])
            return
        if any(isinstance(x, Seg) for x in o):
            c = int(k.c)
            if c >= 0 and not any(isinstance(x, Seg) for x in o[:c + 1]) and c < len(o):
                o[c] = v
                return
            if c < 0 and not any(isinstance(x, Seg) for x in o[c:]):
                o[c] = v
                return
            if len(o) == 1:
                s = o[0]
                _arr.bound(num(s.n) > c if c >= 0 else num(s.n) >= -c, 'list assignment index out of range')
                kz = zi(c) if c >= 0 else zi(num(s.n) + c)
                f = s.f
                o[0] = Seg(s.n, lambda j: ite(mkbool(norm(zi(j) == kz)), v, f(j)))
                return
            raise Unsupported('item assignment into a symbolic list')
        o[int(k.c)] = v
        return
    if isinstance(o, dict) and isinstance(i, SStr):
        for k in list(o):
            if isstr(k):
                e = eq(i, k)
                if e is True or (isinstance(e, SBool) and bool(e)):
                    o[k] = v
                    return
        o[i] = v
        return
    o[i] = v


_AUG = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': div,
        'Mod': mod, 'Pow': pow, 'FloorDiv': floordiv, 'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b,
        'BitXor': lambda a, b: a ^ b}


def augitem(o, i, op, v):
    o = force(o)
    cur = getitem(o, i)
    v = force(v)
    if isinstance(o, SArr):
        r = _AUG[op](cur, v)
        rd = _arr.dt_of(r)
        if o.dt == 'i' and rd == 'f':
            raise TypeError('Cannot cast ufunc output')
        ix = i if isinstance(i, tuple) else (i,)
        o.setindex(tuple(force(x) for x in ix), r)
        return
    if isinstance(cur, list) and op == 'Add':
        cur.extend(seq_list(v))
        return
    setitem(o, i, _AUG[op](cur, v))


def seq_list(v):
    """a Python list (possibly with segments) of what an iterable yields"""
    v = force(v)
    if isinstance(v, GenList):
        out = list(v.out)
        v.out = []
        return out
    if isinstance(v, list):
        return list(v)
    out = []
    for p in RT.parts(v):
        out.append(p[1] if p[0] == 'c' else Seg(p[1], p[2]))
    return out


def callm(o, name, *args):
    o = force(o)
    args = tuple(force(a) for a in args)
    if isinstance(o, SStr):
        return o._call(name, args)
    if isinstance(o, str):
        from . import lib
        return lib.str_method(o, name, args)
    if isinstance(o, list):
        if name == 'extend':
            o.extend(seq_list(args[0]))
            return None
        if name in ('index', 'count', 'sort', 'remove', 'insert'):
            if any(isinstance(x, Seg) for x in o):
                if name == 'insert' and args[0] == 0:
                    o.insert(0, args[1])
                    return None
                raise Unsupported('list.%s of a symbolic list' % name)
            if name == 'index':
                for j, x in enumerate_(o):
                    e = eq(x, args[0])
                    if truth_fork(e):
                        return j
                raise ValueError('not in list')
            if name == 'count':
                r = 0
                for x in o:
                    r = r + num(truth(eq(x, args[0])))
                return r
            if name == 'sort' and symbolic_in(o):
                raise Unsupported('sort of a symbolic list')
            if name == 'insert':
                args = (int(num(args[0])),) + args[1:]
        return getattr(o, name)(*args)
    return getattr(o, name)(*args)


def truth_fork(e):
    return e if isinstance(e, bool) else bool(e)


def enumerate_(l):
    return list(builtins.enumerate(l))


# ------------------------------------------------------------------ comprehensions
def comp(kind, it, fn):
    out = []

    def body(x):
        out.extend(fn(x))
    RT.for_('comp', it, body, ('out',), 0)
    if kind == 'list':
        return out
    if kind == 'gen':
        return GenList(out)
    if any(isinstance(x, Seg) for x in out):
        raise Unsupported('set or dict of symbolic size')
    if kind == 'set':
        return set(out)
    return dict(out)


def concrete_iter(it):
    out = []
    for p in RT.parts(it):
        if p[0] == 'c':
            out.append(p[1])
        elif num(p[1]).c is not None:
            out.extend(p[2](z3.IntVal(j)) for j in range(int(num(p[1]).c)))
        else:
            raise Unsupported('nested comprehension over a symbolic list')
    return out


def isret(r):
    return isinstance(r, Ret)


def notbroken(r):
    return r is not BREAK


# ------------------------------------------------------------------ builtins
class SRange(object):
    def __init__(self, lo, n, step):
        self.lo, self.n, self.step = num(lo), num(n), num(step)

    def __sym_parts__(self):
        if self.n.c is not None and self.n.c <= 12 and self.lo.c is not None and self.step.c is not None:
            return [('c', int(self.lo.c + self.step.c * j)) for j in range(int(self.n.c))]
        return [('s', self.n, lambda i: self.lo + mknum(zi(i)) * self.step)]

    def __sym_len__(self):
        return self.n

    def __getitem__(self, i):
        i = num(force(i))
        _arr.bound(land(i >= 0, i < self.n), 'range object index out of range')
        return self.lo + i * self.step

    def __iter__(self):
        for p in self.__sym_parts__():
            if p[0] == 's':
                raise Unsupported('native iteration over a symbolic range')
            yield p[1]

    def __sym_subst__(self, pairs):
        return SRange(vsubst(self.lo, pairs), vsubst(self.n, pairs), vsubst(self.step, pairs))


def range_(*a):
    a = [num(force(x)) for x in a]
    for x in a:
        if not x.int:
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(x.c is not None for x in a):
        r = builtins.range(*[int(x.c) for x in a])
        return r if len(r) <= 200 else SRange(r.start, len(r), r.step)
    lo, hi, st = (num(0), a[0], num(1)) if len(a) == 1 else (a[0], a[1], num(1)) if len(a) == 2 else a
    if st.c is None:
        raise Unsupported('symbolic range step')
    if st.c == 1:
        n = hi - lo
    elif st.c == -1:
        n = lo - hi
    elif st.c > 0:
        n = _arr.floordiv(hi - lo + (st - 1), st)
    else:
        n = _arr.floordiv(lo - hi + (0 - st - 1), 0 - st)
    n = num(n)
    n = mknum(norm(n.z)) if n.c is None else n
    if not _arr.nonneg(n):
        n = ite(n >= 0, n, 0)
    return SRange(lo, n, st)


def len_(v):
    v = force(v)
    if isinstance(v, (SNum, SBool, int, float)):
        raise TypeError('object of type number has no len()')
    if isinstance(v, GenList):
        raise TypeError('generator has no len()')
    r = ln(v)
    return r


def as_seq(v):
    """(length, item function) of an iterable"""
    v = force(v)
    if isinstance(v, SArr):
        return v.shape[0], lambda i: v._row(i)
    l = seq_list(v)
    return ln(l), lambda i: at(l, i)


def enumerate_b(it, start=0):
    l = seq_list(it)
    out, off = [], start
    for x in l:
        if isinstance(x, Seg):
            f, o = x.f, off
            out.append(Seg(x.n, lambda i, f=f, o=o: (num(o) + mknum(zi(i)), f(i)), ))
            off = x.n + off
        else:
            out.append((off, x))
            off = off + 1
    return GenList(out)


def zip_(*its):
    ls = [seq_list(i) for i in its]
    if not any(isinstance(x, Seg) for l in ls for x in l):
        return GenList(list(builtins.zip(*ls)))
    ns = [num(ln(l)) for l in ls]
    n = ns[0]
    for m in ns[1:]:
        if norm(zi(m)).eq(norm(zi(n))):
            continue
        n = sym.smin(n, m)
    if all(len(l) == len(ls[0]) for l in ls) and all(
            all(isinstance(l[j], Seg) == isinstance(ls[0][j], Seg) and
                (not isinstance(l[j], Seg) or norm(zi(l[j].n)).eq(norm(zi(ls[0][j].n)))) for j in range(len(l)))
            for l in ls):
        out = []
        for j in range(len(ls[0])):
            if isinstance(ls[0][j], Seg):
                fs = [l[j].f for l in ls]
                out.append(Seg(ls[0][j].n, lambda i, fs=fs: tuple(f(i) for f in fs)))
            else:
                out.append(tuple(l[j] for l in ls))
        return GenList(out)
    return GenList([Seg(n, lambda i: tuple(at(l, i) for l in ls))])


def map_(f, *its):
    if len(its) == 1:
        out = []

        def body(x):
            out.append(f(x))
        RT.for_('map', its[0], body, ('out',), 0)
        return GenList(out)
    z = zip_(*its)
    out = []

    def body2(t):
        out.append(f(*t))
    RT.for_('map', z, body2, ('out',), 0)
    return GenList(out)


def filter_(f, it):
    out = []

    def body(x):
        if truth(f(x) if f is not None else x):
            out.append(x)
    RT.for_('filter', it, body, ('out',), 0)
    return GenList(out)


def reduce_(f, it, *init):
    l = seq_list(it)
    if init:
        acc = [init[0]]
    else:
        n = len_(l)
        if not truth(num(n) >= 1):
            raise TypeError('reduce() of empty iterable with no initial value')
        acc = [seq_index(l, 0)]
        l = seq_slice(l, slice(1, None))

    def body(x):
        acc[0] = f(acc[0], x)
    RT.for_('reduce', l, body, ('acc',), 0)
    return acc[0]


def list_(v=()):
    return seq_list(v)


def tuple_(v=()):
    l = seq_list(v)
    return tuple(l)


def set_(v=()):
    l = seq_list(v)
    if any(isinstance(x, Seg) for x in l) or symbolic_in(l):
        raise Unsupported('set of symbolic values')
    return set(l)


def sorted_(v, key=None, reverse=False):
    l = seq_list(v)
    if symbolic_in(l):
        raise Unsupported('sorted of symbolic values')
    return builtins.sorted(l, key=key, reverse=reverse)


def reversed_(v):
    return GenList(seq_slice(seq_list(v), slice(None, None, -1)))


def int_(v=0, *a):
    v = force(v)
    if isinstance(v, (SNum, SBool, Fraction, int, float)):
        return sym.trunc(v)
    if hasattr(v, '__sym_int__'):
        return v.__sym_int__()
    if isinstance(v, SArr):
        if v.size1():
            return sym.trunc(v.scalar())
        raise TypeError('only length-1 arrays can be converted to Python scalars')
    if isinstance(v, str):
        return builtins.int(v, *a)
    if isinstance(v, SStr):
        from . import lib
        return lib.str_int(v)
    return builtins.int(v)


def float_(v=0):
    v = force(v)
    if isinstance(v, (SNum, SBool, Fraction, int, float)):
        return toreal(num(v))
    if hasattr(v, '__sym_float__'):
        return v.__sym_float__()
    if isinstance(v, SArr):
        if v.size1():
            return toreal(num(v.scalar()))
        raise TypeError('only length-1 arrays can be converted to Python scalars')
    if isinstance(v, str):
        return num(builtins.float(v))
    if isinstance(v, SStr):
        from . import lib
        return lib.str_float(v)
    return builtins.float(v)


def str_(v=''):
    v = force(v)
    if isinstance(v, (str, SStr)):
        return v
    if hasattr(v, '__sym_str__'):
        return v.__sym_str__()
    if isinstance(v, SNum):
        if v.c is not None:
            return builtins.str(_plain(v))
        from . import lib
        return lib.num_text(v)
    if isinstance(v, bool):
        return builtins.str(v)
    if isinstance(v, (SBool, OObj, SArr)):
        return '<text>'
    return builtins.str(v)


def bool__(v=False):
    t = truth(v)
    return t


def abs_(v):
    v = force(v)
    if isinstance(v, SArr):
        return npm.abs(v)
    return sym.absv(v)


def _minmax(kind):
    f2 = sym.smin if kind == 'min' else sym.smax

    def g(*a, **k):
        if k:
            raise Unsupported('min/max options')
        if len(a) == 1:
            v = force(a[0])
            if isinstance(v, SArr):
                return getattr(npm, kind)(v)
            l = seq_list(v)
            if any(isinstance(x, Seg) for x in l):
                return getattr(npm, kind)(npm.array(l))
            a = l
            if not a:
                raise ValueError('empty sequence')
        a = [force(x) for x in a]
        if isinstance(a[0], str):
            return getattr(builtins, kind)(a)
        r = a[0]
        for x in a[1:]:
            r = f2(r, x)
        return r
    return g


min_, max_ = _minmax('min'), _minmax('max')


def sum_(v, start=0):
    v = force(v)
    if isinstance(v, SArr) and len(v.shape) == 1:
        r = npm.sum(v)
        return r if start == 0 and isinstance(start, int) else start + r
    r = start
    l = seq_list(v)
    if len(l) == 1 and isinstance(l[0], Seg) and _arr.nonneg(num(l[0].n) - 1):
        # the first item apart, as reduce() has it
        f, n = l[0].f, num(l[0].n)
        return num(start) + num(f(z3.IntVal(0))) + mkred('sum', 0, zi(n - 1), lambda i: num(f(norm(zi(i) + 1))))
    for x in l:
        if isinstance(x, Seg):
            f = x.f
            r = r + mkred('sum', 0, zi(x.n), lambda i: num(f(i)))
        else:
            r = r + x
    return r


def _anyall(ex):
    def g(v):
        v = force(v)
        if isinstance(v, SArr):
            if len(v.shape) > 1 and not v.size1():
                raise ValueError('The truth value of an array with more than one element is ambiguous')
            return npm._quant(v, ex)
        r = []
        for x in seq_list(v):
            if isinstance(x, Seg):
                q = bvar('q')
                b = zb(truth(x.f(q)))
                rng = z3.And(0 <= q, q < zi(x.n))
                r.append(mkbool(z3.Exists([q], z3.And(rng, b)) if ex else z3.ForAll([q], z3.Implies(rng, b))))
            else:
                r.append(truth(x))
        return (lor(*r) if ex else land(*r)) if r else (not ex)
    return g


any_, all_ = _anyall(True), _anyall(False)


def round_(v, nd=None):
    v = num(force(v))
    if v.c is not None:
        r = builtins.round(v.c, int(num(nd).c)) if nd is not None else builtins.round(v.c)
        return num(r) if nd is None else SNum(Fraction(r), None, False)
    if nd is None:
        return sym.rnd(v)
    return npm.around(v, nd)


def isinstance_(v, t):
    v = force(v)
    if isinstance(t, tuple):
        return any(isinstance_(v, x) for x in t)
    t = UNSHIM.get(id(t), t)
    if isinstance(v, SNum):
        if t is int:
            return v.int
        if t is float:
            return not v.int
        return t is object
    if isinstance(v, SBool):
        return t in (bool, int, object)
    if isinstance(v, Fraction):
        return t in (float, object)
    if isinstance(v, SStr):
        return t in (str, object)
    if hasattr(v, '__sym_isinstance__'):
        return v.__sym_isinstance__(t)
    if not isinstance(t, type):
        if t is npm.ndarray:
            return isinstance(v, SArr)
        return False
    return builtins.isinstance(v, t)


def type_(v, *a):
    if a:
        return builtins.type(v, *a)
    v = force(v)
    if isinstance(v, SNum):
        return SHIMS['int'] if v.int else SHIMS['float']
    if isinstance(v, (SBool, bool)):
        return bool
    if isinstance(v, (SStr, str)):
        return SHIMS['str']
    if isinstance(v, list):
        return SHIMS['list']
    return builtins.type(v)


def next_(it, *d):
    it = force(it)
    if isinstance(it, GenList):
        try:
            return it.__next__()
        except StopIteration:
            if d:
                return d[0]
            raise
    return builtins.next(it, *d)


def iter_(v):
    v = force(v)
    if isinstance(v, GenList):
        return v
    if hasattr(v, '__next__'):
        return v
    return GenList(seq_list(v))


def print_(*a, **k):
    return None


def divmod_(a, b):
    return floordiv(a, b), mod(a, b)


def hash_(v):
    return builtins.hash(v)


def vars_(o):
    return builtins.vars(o)


def open_(*a, **k):
    from . import lib
    return lib.open_(*a, **k)


SHIMS = {'len': len_, 'range': range_, 'enumerate': enumerate_b, 'zip': zip_, 'map': map_, 'filter': filter_,
         'list': list_, 'tuple': tuple_, 'set': set_, 'sorted': sorted_, 'reversed': reversed_, 'int': int_,
         'float': float_, 'str': str_, 'bool': bool__, 'abs': abs_, 'min': min_, 'max': max_, 'sum': sum_,
         'any': any_, 'all': all_, 'round': round_, 'isinstance': isinstance_, 'type': type_, 'next': next_,
         'iter': iter_, 'print': print_, 'divmod': divmod_, 'pow': pow, 'open': open_}
UNSHIM = {id(list_): list, id(tuple_): tuple, id(set_): set, id(int_): int, id(float_): float, id(str_): str,
          id(bool__): bool}
int_._dt, float_._dt, bool__._dt = 'i', 'f', 'b'
str_._dt = 'o'


class RTObj(object):
    """what instrumented modules see as `_rt`"""
    pass


def make_rt():
    o = RTObj()
    for k in ('lit div mod pow floordiv augdiv augmod augpow augfloordiv not_ in_ eq noteq chain getitem setitem '
              'augitem callm comp concrete_iter isret notbroken').split():
        setattr(o, k, globals()[k])
    o.Ret, o.BREAK = Ret, BREAK
    for k in 'for_ while_ genlist gen yield_ yieldfrom'.split():
        setattr(o, k, getattr(RT, k))
    return o


def make_builtins(imp):
    d = dict(builtins.__dict__)
    d.update(SHIMS)
    d['__import__'] = imp
    d['unicode'] = str_
    return d
