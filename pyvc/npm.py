"""Model of the numpy functions the code (and plausible rewrites of it) uses."""
import types
import z3
from fractions import Fraction
from . import sym, solve, rt as _rtm
from .rt import RT, Seg, GenList
from .sym import (SNum, SBool, Unsupported, num, zb, zi, mknum, mkbool, ite, land, lor, norm, subst, bvar,
                  isnum, not_, mkred, mksel, cast, toreal, force, I, Rl)
from .arr import SArr, ew, bop, dtc, promote, dt_of, dim, is1, dim_eq, truthv, mkperm, perm_inverse, asarr, castv

_any, _all, _sum, _min, _max, _abs, _round = any, all, sum, min, max, abs, round


class _dt(object):
    def __init__(self, d):
        self._dt = d

    def __call__(self, x=0):
        x = force(x)
        if isinstance(x, SArr):
            return x.astype(self)
        return castv(x, self._dt)

    def __repr__(self):
        return 'dtype(%s)' % self._dt


float64, int64, bool_ = _dt('f'), _dt('i'), _dt('b')
float_ = double = float32 = float64
int_ = int32 = intp = int64
object_ = _dt('o')
ndarray = SArr
newaxis = None
pi = SNum(None, sym.PI, False)
e = None


def _c(v):
    """force choices; lists to arrays"""
    v = force(v)
    if isinstance(v, (list, tuple, GenList)):
        return array(v)
    if isinstance(v, (range, map, zip)):
        return array(list(v))
    return v


def shape(a):
    a = force(a)
    if isinstance(a, SArr):
        return tuple(num(d) if not isinstance(d, int) else d for d in a.shape)
    if isinstance(a, (list, tuple)):
        return shape(array(a))
    return ()


def size(a, axis=None):
    a = _c(a)
    if not isinstance(a, SArr):
        return 1
    return a.size if axis is None else a.shape[axis]


def ndim(a):
    return len(shape(a))


def alen(a):
    return shape(a)[0]


def rank_list(v):
    return array(v)


def array(v, dtype=None, copy=True, ndmin=0):
    v = force(v)
    d = dtc(dtype)
    if isinstance(v, GenList):
        v = v.out
    if isinstance(v, SArr):
        r = v.copy()
        return r.astype(dtype) if d else r
    if isnum(v) or hasattr(v, '__sym_num__'):
        return castv(v, d) if d else v
    if isinstance(v, (range,)):
        v = list(v)
    if not isinstance(v, (list, tuple)):
        raise Unsupported('array of %r' % type(v))
    items = list(v)
    if not items:
        return SArr((0,), lambda ix: Fraction(0), d or 'f')
    if len(items) == 1 and isinstance(items[0], Seg):
        s = items[0]
        x = bvar('t')
        row = force(s.f(x))
        if isinstance(row, (list, tuple)) or isinstance(row, SArr):
            r0 = array(row)
            if _any(not isinstance(q, int) and not norm(zi(q)).eq(norm(z3.substitute(zi(q), (x, bvar('t'))))) for q in r0.shape):
                raise Unsupported('ragged array')
            fs = {}

            def fn(ix):
                r = array(s.f(ix[0]))
                return r.get()(tuple(ix[1:]))
            n = s.n
            dd = d or r0.dt
            shp = (n,) + tuple(r0.shape)
            return SArr(shp, lambda ix: castv(fn(ix), dd), dd)
        if not (isnum(row) or hasattr(row, '__sym_num__')):
            raise Unsupported('array of objects')
        dd = d or dt_of(row)
        return SArr((s.n,), lambda ix: castv(s.f(ix[0]), dd), dd)
    if _any(isinstance(x, Seg) for x in items):
        # concatenation of parts
        parts = [array([x]) for x in items]
        return concatenate(parts, dtype=d)
    items = [force(x) for x in items]
    items = [array(x) if isinstance(x, (list, tuple)) else x for x in items]
    if isinstance(items[0], SArr):
        sh = items[0].shape
        for x in items[1:]:
            if not isinstance(x, SArr) or len(x.shape) != len(sh):
                raise ValueError('inhomogeneous shape')
            for p, q in zip(sh, x.shape):
                if not dim_eq(p, q):
                    if isinstance(p, int) and isinstance(q, int):
                        raise ValueError('inhomogeneous shape')
                    RT.require('rows of equal length', num(p) == num(q))
        fs = [x.get() for x in items]
        dd = d or promote(*[x.dt for x in items])
        return SArr((len(items),) + tuple(sh), lambda ix: castv(pick(ix[0], [
            (lambda f=f: f(tuple(ix[1:]))) for f in fs]), dd), dd)
    if _all(isnum(x) or hasattr(x, '__sym_num__') for x in items):
        dd = d or promote(*[dt_of(x) for x in items])
        vals = [castv(x, dd) for x in items]
        return SArr((len(vals),), lambda ix: pick(ix[0], [(lambda v=v: v) for v in vals]), dd)
    if _all(x is None or isinstance(x, str) or not isnum(x) for x in items):
        vals = list(items)
        return SArr((len(vals),), lambda ix: pick(ix[0], [(lambda v=v: v) for v in vals]), 'o')
    raise Unsupported('array of mixed items')


asarray = asanyarray = ascontiguousarray = array


def pick(i, thunks):
    """thunks[i]() for a z3 index"""
    i = norm(zi(i))
    if z3.is_int_value(i):
        k = i.as_long()
        if 0 <= k < len(thunks):
            return thunks[k]()
        return thunks[-1]()
    r = thunks[-1]()
    for k in range(len(thunks) - 2, -1, -1):
        r = ite(mkbool(i == k), thunks[k](), r)
    return r


def _shape(s):
    s = force(s)
    if isinstance(s, (tuple, list)):
        return tuple(dim(_int(x)) for x in s)
    return (dim(_int(s)),)


def _int(x):
    x = num(force(x))
    if not x.int:
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x


def zeros(s, dtype=None, order=None):
    return full(s, 0, dtype or float)


def ones(s, dtype=None, order=None):
    return full(s, 1, dtype or float)


def empty(s, dtype=None):
    d = dtc(dtype) or 'f'
    sh = _shape(s)
    uf = None

    def fn(ix):
        return castv(mknum(sym.fresh('EMPTY', Rl)), d)
    from .sym import fresh
    nm = 'EMPTY!%d' % next(sym._cnt)
    ks = list(RT.loop_index)
    f = z3.Function(nm, *([k.sort() for k in ks] + [I] * len(sh) + [Rl]))
    return SArr(sh, lambda ix: castv(mknum(f(*(ks + list(ix)))), d), d)


def full(s, v, dtype=None):
    v = force(v)
    d = dtc(dtype) or dt_of(v)
    if isinstance(v, SArr):
        v = v.scalar()
    v = castv(v, d)
    return SArr(_shape(s), lambda ix: v, d)


def zeros_like(a, dtype=None):
    a = _c(a)
    if not isinstance(a, SArr):
        return num(0)
    return full(a.shape, 0, dtype or 'dt:' + a.dt)


def ones_like(a, dtype=None):
    a = _c(a)
    return full(a.shape, 1, dtype or 'dt:' + a.dt)


def full_like(a, v, dtype=None):
    a = _c(a)
    return full(a.shape, v, dtype or 'dt:' + a.dt)


empty_like = zeros_like


def identity_fn(f, dt='f'):
    def g(x, *a, **k):
        if a and not (len(a) == 1 and a[0] is None):
            raise Unsupported('out argument')
        x = _c(x)
        if isinstance(x, SArr):
            return ew(f, x, dt=dt)
        return f(x)
    return g


def _r(f):
    return lambda v: f(toreal(num(v)))


sin, cos, tan = identity_fn(_r(sym.sin)), identity_fn(_r(sym.cos)), identity_fn(_r(sym.tan))
exp, log, sqrt = identity_fn(_r(sym.exp)), identity_fn(_r(sym.ln)), identity_fn(_r(sym.sqrt))
log10, log2 = identity_fn(_r(sym.log10)), identity_fn(_r(sym.log2))
arcsin, arccos, arctan = identity_fn(_r(sym.asin)), identity_fn(_r(sym.acos)), identity_fn(_r(sym.atan))
floor = identity_fn(lambda v: toreal(sym.floor(v)))
ceil = identity_fn(lambda v: toreal(sym.ceil(v)))
trunc = fix = identity_fn(lambda v: toreal(sym.trunc(v)))
radians = deg2rad = identity_fn(lambda v: toreal(num(v)) * (pi / 180))
degrees = rad2deg = identity_fn(lambda v: toreal(num(v)) * (SNum(Fraction(180), None, False) / pi))
log1p = identity_fn(lambda v: sym.ln(toreal(num(v)) + 1))
expm1 = identity_fn(lambda v: sym.exp(toreal(num(v))) - 1)
square = identity_fn(lambda v: num(v) * num(v), dt=None)
abs = absolute = fabs = identity_fn(sym.absv, dt=None)
sign = identity_fn(lambda v: ite(num(v) > 0, 1, ite(num(v) < 0, -1, 0)), dt=None)
negative = identity_fn(lambda v: 0 - num(v), dt=None)
isnan = identity_fn(lambda v: False, dt='b')
isinf = isnan
isfinite = identity_fn(lambda v: True, dt='b')


def _b2(f, dt=None):
    def g(a, b, *rest, **k):
        if rest or k:
            raise Unsupported('extra arguments')
        a, b = _c(a), _c(b)
        if not isinstance(a, SArr) and not isinstance(b, SArr):
            return f(a, b)
        return ew(f, a, b, dt=dt)
    return g


arctan2 = _b2(lambda a, b: sym.atan2(toreal(num(a)), toreal(num(b))), 'f')
power = _b2(lambda a, b: sym.power(a, b))
float_power = power
add = _b2(lambda a, b: num(a) + num(b))
subtract = _b2(lambda a, b: num(a) - num(b))
multiply = _b2(lambda a, b: num(a) * num(b))
divide = true_divide = _b2(lambda a, b: num(a) / num(b), 'f')
maximum = fmax = _b2(sym.smax)
minimum = fmin = _b2(sym.smin)
hypot = _b2(lambda a, b: sym.sqrt(toreal(num(a) * num(a) + num(b) * num(b))))
logical_and = _b2(lambda a, b: land(truthv(a), truthv(b)), 'b')
logical_or = _b2(lambda a, b: lor(truthv(a), truthv(b)), 'b')
logical_xor = _b2(lambda a, b: mkbool(z3.Xor(zb(truthv(a)), zb(truthv(b)))), 'b')
logical_not = identity_fn(lambda v: not_(truthv(v)), dt='b')
less = _b2(lambda a, b: num(a) < num(b), 'b')
less_equal = _b2(lambda a, b: num(a) <= num(b), 'b')
greater = _b2(lambda a, b: num(a) > num(b), 'b')
greater_equal = _b2(lambda a, b: num(a) >= num(b), 'b')
equal = _b2(lambda a, b: num(a) == num(b), 'b')
not_equal = _b2(lambda a, b: not_(num(a) == num(b)), 'b')
bitwise_and, bitwise_or = logical_and, logical_or
invert = logical_not
def mod(a, b):
    return bop('%', _c(a), _c(b))
remainder = mod
def floor_divide(a, b):
    return bop('//', _c(a), _c(b))


def clip(a, lo, hi):
    if lo is not None:
        a = maximum(a, lo)
    if hi is not None:
        a = minimum(a, hi)
    return a


def around(a, decimals=0):
    d = int(num(decimals).c)
    p = Fraction(10) ** d

    def f(v):
        v = num(v)
        if v.int and d >= 0:
            return v
        r = toreal(sym.rnd(toreal(v) * p))
        return r / p if d else r
    a = _c(a)
    return ew(f, a, dt=a.dt if isinstance(a, SArr) and a.dt == 'i' else 'f') if isinstance(a, SArr) else f(a)


round = round_ = rint = around


def copy(a):
    a = _c(a)
    return a.copy() if isinstance(a, SArr) else a


# ------------------------------------------------------------------ reductions
def guarded(a, axis=0):
    """1-d array a as (lo, hi, elem, guard): over its base when it is a compression"""
    f = a.get()
    n = zi(a.shape[0])
    s = a.via[0]
    if s is not None:
        j, x = bvar('t'), bvar('t')
        v = f((j,))
        z = zb(v) if a.dt == 'b' else num(v).z
        z2 = subst(z, [(s.sel(j), x)])
        if not _any(q.eq(j) for q in sym.free_bindables(z2)):
            return (z3.IntVal(0), s.n, lambda i: (mkbool if a.dt == 'b' else mknum)(subst(z2, [(x, zi(i))])),
                    lambda i: s.pred(i))
    return (z3.IntVal(0), n, lambda i: f((i,)), None)


def _axis(a, axis):
    if axis is not None:
        axis = int(num(axis).c)
        if axis < 0:
            axis += len(a.shape)
    return axis


def _reduce(a, axis, one, all_):
    a = _c(a)
    if not isinstance(a, SArr):
        return one(SArr((1,), lambda ix: a, dt_of(a)))
    axis = _axis(a, axis)
    if len(a.shape) == 1:
        return one(a)
    if len(a.shape) == 0:
        return a.scalar()
    if axis is None:
        return all_(a)
    if len(a.shape) != 2:
        raise Unsupported('reduction of %d-d array' % len(a.shape))
    f = a.get()
    if axis == 0:
        return _lift(lambda j: one(SArr((a.shape[0],), lambda ix: f((ix[0], j)), a.dt, (a.via[0],))),
                     a.shape[1], a.via[1], a.dt)
    return _lift(lambda i: one(SArr((a.shape[1],), lambda ix: f((i, ix[0])), a.dt, (a.via[1],))),
                 a.shape[0], a.via[0], a.dt)


def _lift(f, n, via, dt):
    t = f(bvar('t'))
    return SArr((n,), lambda ix: f(ix[0]), dt_of(t), (via,))


def sum(a, axis=None, dtype=None, keepdims=False):
    if keepdims:
        raise Unsupported('keepdims')

    def one(v):
        lo, hi, f, g = guarded(v)
        return mkred('sum', lo, hi, lambda x: (num(f(x)) if v.dt != 'b' else num(f(x))), g)

    def all_(v):
        f = v.get()
        if len(v.shape) != 2:
            raise Unsupported('sum of %d-d' % len(v.shape))
        return mkred('sum', 0, zi(v.shape[0]), lambda i: mkred(
            'sum', 0, zi(v.shape[1]), lambda j: num(f((i, j)))))
    a = _c(a)
    if isinstance(a, SArr) and a.dt == 'b' and len(a.shape) == 1:
        lo, hi, f, g = guarded(a)
        return mkred('count', lo, hi, lambda x: 1,
                     lambda x: z3.And(g(x), zb(f(x))) if g else zb(f(x)))
    return _reduce(a, axis, one, all_)


def count_nonzero(a, axis=None):
    a = _c(a)
    return sum(ew(lambda v: truthv(v), a, dt='b'), axis)


def _ext(kind):
    def red(a, axis=None):
        if isinstance(a, tuple) and _all(isnum(x) for x in a):
            r = a[0]
            for x in a[1:]:
                r = (sym.smax if kind == 'max' else sym.smin)(r, x)
            return r

        def one(v):
            lo, hi, f, g = guarded(v)
            n = v.shape[0]
            if isinstance(n, int):
                if n == 0:
                    raise ValueError('zero-size array to reduction operation')
            else:
                from .arr import bound
                if not _nonempty(v):
                    raise ValueError('zero-size array to reduction operation')
            if isinstance(n, int) and n <= 6 and g is None:
                r = f(z3.IntVal(0))
                for k in range(1, n):
                    r = (sym.smax if kind == 'max' else sym.smin)(r, f(z3.IntVal(k)))
                return r
            return mkred(kind, lo, hi, lambda x: num(f(x)), g)

        def all_(v):
            f = v.get()
            return mkred(kind, 0, zi(v.shape[0]), lambda i: mkred(
                kind, 0, zi(v.shape[1]), lambda j: num(f((i, j)))))
        return _reduce(a, axis, one, all_)
    return red


def _nonempty(v):
    z = norm(zi(v.shape[0]) >= 1)
    from . import solve
    if z3.is_true(z) or solve.quick_valid(RT.pc, z):
        return True
    return RT.decide(z)


max = amax = nanmax = _ext('max')
min = amin = nanmin = _ext('min')
nansum = sum


def ptp(a):
    return max(a) - min(a)


def _argext(kind):
    def red(a, axis=None):
        a = _c(a)
        if len(a.shape) != 1:
            raise Unsupported('argmax of 2-d')
        f = a.get()
        if not _nonempty(a):
            raise ValueError('attempt to get argmax of an empty sequence')
        if a.via[0] is not None:
            raise Unsupported('argmax of a compressed array')
        return mkred(kind, 0, zi(a.shape[0]), lambda x: toreal(num(f((x,)))))
    return red


argmax, argmin = _argext('argmax'), _argext('argmin')


def mean(a, axis=None):
    a = _c(a)
    n = a.size if axis is None else a.shape[_axis(a, axis)]
    return sum(a, axis) / toreal(num(n))


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    a, w = _c(a), _c(weights)
    return sum(bop('*', a, w)) / sum(w)


def var(a, axis=None, ddof=0):
    a = _c(a)
    if len(a.shape) != 1:
        raise Unsupported('var 2-d')
    m = mean(a)
    d = ew(lambda v: (toreal(num(v)) - m) * (toreal(num(v)) - m), a)
    return sum(d) / toreal(num(a.shape[0]) - num(ddof))


def std(a, axis=None, ddof=0):
    return sym.sqrt(var(a, axis, ddof))


def median(a):
    raise Unsupported('median')


def prod(a, axis=None):
    if isinstance(a, tuple):
        r = 1
        for x in a:
            r = x * r
        return r
    raise Unsupported('prod')


def cumsum(a, axis=None):
    a = _c(a)
    if len(a.shape) != 1:
        raise Unsupported('cumsum 2-d')
    f = a.get()
    dt = 'i' if a.dt == 'b' else a.dt
    if isinstance(a.shape[0], int) and 0 < a.shape[0] <= 64:
        out, t = [], 0
        for i in range(a.shape[0]):
            t = t + num(f((z3.IntVal(i),)))
            out.append(t)
        return array(out)
    if a.reversed:
        # the items summed in their own order
        n = zi(a.shape[0])
        return SArr(a.shape, lambda ix: mkred('sum', norm(n - 1 - ix[0]), n, lambda x: num(f((norm(n - 1 - x),)))), dt)
    return SArr(a.shape, lambda ix: mkred('sum', 0, ix[0] + 1, lambda x: num(f((x,)))), dt)


def diff(a, n=1, axis=-1):
    a = _c(a)
    if len(a.shape) != 1 or n != 1:
        raise Unsupported('diff')
    return a[1:] - a[:-1]


def any(a, axis=None):
    a = _c(a)
    if not isinstance(a, SArr):
        return truthv(a)
    if axis is not None and len(a.shape) > 1:
        return _reduce(a, axis, any, None)
    return _quant(a, True)


def all(a, axis=None):
    a = _c(a)
    if not isinstance(a, SArr):
        return truthv(a)
    if axis is not None and len(a.shape) > 1:
        return _reduce(a, axis, all, None)
    return _quant(a, False)


alltrue, sometrue = all, any


def _quant(a, ex):
    if len(a.shape) == 0:
        return truthv(a.scalar())
    if a.size1():
        return truthv(a.scalar())
    if len(a.shape) == 1:
        lo, hi, f, g = guarded(a)
        x = bvar('q')
        b = zb(truthv(f(x)))
        rng = z3.And(x >= 0, x < hi, g(x)) if g else z3.And(x >= 0, x < hi)
        if isinstance(a.shape[0], int) and a.shape[0] <= 6:
            bs = [zb(truthv(f(z3.IntVal(k)))) for k in range(a.shape[0])]
            return mkbool(norm(z3.Or(bs) if ex else z3.And(bs))) if bs else (not ex)
        vs = [x]
    else:
        f = a.get()
        vs = [bvar('q') for _ in a.shape]
        b = zb(truthv(f(tuple(vs))))
        rng = z3.And([z3.And(v >= 0, v < zi(d)) for v, d in zip(vs, a.shape)])
    b = norm(b)
    if ex:
        return mkbool(z3.BoolVal(False) if z3.is_false(b) else z3.Exists(vs, z3.And(rng, b)))
    return mkbool(z3.BoolVal(True) if z3.is_true(b) else z3.ForAll(vs, z3.Implies(rng, b)))


def allclose(a, b, rtol=None, atol=None):
    raise Unsupported('allclose')


def array_equal(a, b):
    a, b = _c(a), _c(b)
    return all(a == b)


# ------------------------------------------------------------------ construction
def arange(*args, dtype=None):
    args = [num(force(a)) for a in args]
    if len(args) == 1:
        lo, hi, st = num(0), args[0], num(1)
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], num(1)
    else:
        lo, hi, st = args
    isint = lo.int and hi.int and st.int
    if st.c is not None and st.c == 0:
        raise ZeroDivisionError('Maximum allowed size exceeded')
    if isint and st.c == 1:
        n = hi - lo
    else:
        n = sym.ceil((toreal(hi) - toreal(lo)) / toreal(st))
    if n.c is not None:
        n = num(_max(0, int(n.c)))
    else:
        from . import solve
        nn = mknum(norm(n.z))
        if isint and st.c == 1:
            if not solve.quick_valid(RT.pc, nn.z >= 0):
                nn = ite(nn >= 0, nn, 0)
            n = nn
        else:
            # a named length: smaller terms
            n = sym.named_int(ite(nn >= 0, nn, 0), lambda me, v: [me >= 0])
    d = dtc(dtype)

    def fn(ix):
        v = lo + mknum(ix[0]) * st
        return v if isint else toreal(v)
    r = SArr((n,), fn, 'i' if isint else 'f')
    r.__dict__['uniform'] = (lo, st)
    return r.astype(dtype) if d else r


def linspace(a, b, nn=50, endpoint=True):
    a, b, nn = toreal(num(a)), toreal(num(b)), num(nn)
    return SArr((nn,), lambda ix: a + toreal(mknum(ix[0])) * (b - a) / toreal(nn - 1), 'f')


def concatenate(parts, axis=0, dtype=None):
    parts = [_c(p) if not isinstance(force(p), list) else array(p) for p in parts]
    parts = [p if isinstance(p, SArr) else SArr((1,), lambda ix, p=p: p, dt_of(p)) for p in parts]
    if len(parts) == 1:
        return parts[0].copy()
    dd = dtype or promote(*[p.dt for p in parts])
    if axis in (-1,) and len(parts[0].shape) == 1:
        axis = 0
    if len(parts[0].shape) == 2 and axis in (1, -1):
        return hstack2(parts)
    offs, t = [], 0
    for p in parts:
        offs.append(t)
        t = p.shape[0] + t
    fs = [p.get() for p in parts]
    rest = parts[0].shape[1:]
    for p in parts[1:]:
        if len(p.shape) != len(parts[0].shape):
            raise ValueError('all the input array dimensions must match')
        for a, b in zip(p.shape[1:], rest):
            if not dim_eq(a, b):
                if isinstance(a, int) and isinstance(b, int):
                    raise ValueError('dimensions must match exactly')
                RT.require('concatenated shapes match', num(a) == num(b))

    def fn(ix):
        r = castv(fs[-1]((norm(ix[0] - zi(offs[-1])),) + tuple(ix[1:])), dd)
        for k in range(len(fs) - 2, -1, -1):
            c = norm(ix[0] < zi(offs[k + 1]))
            if z3.is_false(c):
                continue
            v = castv(fs[k]((norm(ix[0] - zi(offs[k])),) + tuple(ix[1:])), dd)
            r = ite(mkbool(c), v, r)
        return r
    return SArr((t,) + tuple(rest), fn, dd)


def append(a, b, axis=None):
    a, b = _c(a), _c(b)
    if axis is None:
        a = a.flatten() if isinstance(a, SArr) else a
        b = b.flatten() if isinstance(b, SArr) else b
        return concatenate([a, b])
    return concatenate([a, b], axis)


def _at1(v):
    v = _c(v)
    if not isinstance(v, SArr):
        return SArr((1,), lambda ix: v, dt_of(v))
    return v


def atleast_1d(v):
    v = _at1(v)
    return v if v.shape else SArr((1,), lambda ix: v.scalar(), v.dt)


def hstack(parts):
    parts = force(parts)
    ps = [atleast_1d(p) for p in parts]
    if len(ps[0].shape) == 2:
        return hstack2(ps)
    return concatenate(ps)


def hstack2(ps):
    return concatenate([p.T.copy() for p in ps]).T.copy()


def column_stack(parts):
    ps = []
    for p in parts:
        p = atleast_1d(p)
        if len(p.shape) == 1:
            f = p.get()
            p = SArr((p.shape[0], 1), lambda ix, f=f: f((ix[0],)), p.dt, (p.via[0], None))
        ps.append(p)
    n = ps[0].shape[0]
    for p in ps[1:]:
        if not dim_eq(p.shape[0], n):
            if isinstance(n, int) and isinstance(p.shape[0], int):
                raise ValueError('all the input array dimensions must match')
            RT.require('columns of equal length', num(p.shape[0]) == num(n))
    cols = []
    dd = promote(*[p.dt for p in ps])
    for p in ps:
        if not isinstance(p.shape[1], int):
            raise Unsupported('column_stack')
        f = p.get()
        for k in range(p.shape[1]):
            cols.append(lambda i, f=f, k=k: castv(f((i, z3.IntVal(k))), dd))
    return SArr((n, len(cols)), lambda ix: pick(ix[1], [(lambda c=c: c(ix[0])) for c in cols]), dd)


def vstack(parts):
    ps = []
    for p in force(parts):
        p = atleast_1d(p)
        if len(p.shape) == 1:
            f = p.get()
            p = SArr((1, p.shape[0]), lambda ix, f=f: f((ix[1],)), p.dt)
        ps.append(p)
    return concatenate(ps)


row_stack = vstack
c_ = None


def stack(parts, axis=0):
    if axis == 0:
        return array(list(parts))
    return column_stack(parts)


def dstack(parts):
    raise Unsupported('dstack')


def tile(a, reps):
    raise Unsupported('tile')


def repeat(a, n, axis=None):
    a = _c(a)
    if not isinstance(a, SArr):
        return full(n, a)
    raise Unsupported('repeat')


def reshape(a, s):
    return _c(a).reshape(s)


def ravel(a):
    return _c(a).flatten()


def transpose(a):
    return _c(a).T


def squeeze(a):
    a = _c(a)
    return a.flatten() if isinstance(a, SArr) else a


def flipud(a):
    return _c(a)[::-1]


def flip(a, axis=None):
    a = _c(a)
    if len(a.shape) == 1:
        return a[::-1]
    raise Unsupported('flip')


def outer(a, b):
    a, b = _c(a), _c(b)
    f, g = a.get(), b.get()
    return SArr((a.shape[0], b.shape[0]), lambda ix: num(f((ix[0],))) * num(g((ix[1],))), promote(a.dt, b.dt))


def dot(a, b):
    return sum(bop('*', _c(a), _c(b)))


def meshgrid(a, b):
    a, b = _c(a), _c(b)
    f, g = a.get(), b.get()
    sh = (b.shape[0], a.shape[0])
    return [SArr(sh, lambda ix: f((ix[1],)), a.dt), SArr(sh, lambda ix: g((ix[0],)), b.dt)]


# ------------------------------------------------------------------ selection
def nonzero(a):
    a = _c(a)
    if len(a.shape) == 1:
        f = a.get()
        if a.via[0] is not None:
            raise Unsupported('nonzero of a compressed array')
        pred = lambda i: zb(truthv(f((i,))))
        if isprefix(zi(a.shape[0]), pred):
            return (SArr((mkred('count', 0, zi(a.shape[0]), lambda x: 1, pred),), lambda ix: mknum(ix[0]), 'i'),)
        s = mksel(zi(a.shape[0]), pred)
        return (SArr((s.count(),), lambda ix: mknum(s.sel(ix[0])), 'i', (s,)),)
    if len(a.shape) == 2 and is1(a.shape[1]):
        f = a.get()
        s = mksel(zi(a.shape[0]), lambda i: zb(truthv(f((i, z3.IntVal(0))))))
        return (SArr((s.count(),), lambda ix: mknum(s.sel(ix[0])), 'i', (s,)),
                SArr((s.count(),), lambda ix: num(0), 'i', (s,)))
    raise Unsupported('nonzero of a matrix')


def isprefix(n, pred):
    """does pred hold for exactly the first elements of 0..n?  Proved from the facts that are free of bound variables;
    recorded at the count of these elements, under those facts"""
    if z3.is_int_value(norm(n)):
        return False
    c = zi(mkred('count', 0, n, lambda x: 1, pred))
    r = sym.REDS.get(c.decl().name())
    if r is None or r.guard is None:
        return False
    if getattr(r, 'prefix', None) is None:
        glob = [f for f in RT.pc if not sym.free_bindables(f) and not solve.has_quant(f)]
        x, y = z3.Int('?px'), z3.Int('?py')
        g = lambda k: subst(r.guard, [(r.x, k)])
        d = z3.Implies(z3.And(r.lo <= x, x < y, y < r.hi, g(y)), g(x))
        r.prefix = (z3.And(glob) if glob else z3.BoolVal(True)) if not solve.has_quant(r.guard) and solve.quick_valid(glob, d) else False
    return r.prefix is not False and (z3.is_true(r.prefix) or solve.quick_valid(RT.pc, r.prefix))


def flatnonzero(a):
    return nonzero(_c(a).flatten())[0]


def argwhere(a):
    r = nonzero(a)
    return r[0].reshape((-1, 1)) if len(r) == 1 else column_stack(r)


def where(c, a=None, b=None):
    c = _c(c)
    if a is None:
        return nonzero(c)
    return ew(lambda x, y, z: ite(truthv(x), y, z), c, _c(a), _c(b)) if _any(
        isinstance(v, SArr) for v in (c, _c(a), _c(b))) else ite(truthv(c), a, b)


def compress(c, a, axis=None):
    return _c(a)[_c(c)]


def extract(c, a):
    return _c(a)[_c(c)]


def take(a, i, axis=0):
    return _c(a)[_c(i)]


def delete(a, i, axis=None):
    raise Unsupported('delete')


def argsort(a, axis=-1, kind=None):
    a = _c(a)
    if len(a.shape) != 1:
        raise Unsupported('argsort of a matrix')
    q = perm_inverse(a)
    if q is not None:
        return SArr(a.shape, lambda ix: mknum(norm(q(ix[0]))), 'i')
    f = a.get()
    p, args = mkperm(zi(a.shape[0]), lambda x: f((x,)))
    return SArr(a.shape, lambda ix: mknum(p.P(*(list(args) + [ix[0]]))), 'i')


def sort(a, axis=-1, kind=None):
    a = _c(a)
    return a[argsort(a)]


def lexsort(keys):
    raise Unsupported('lexsort')


def searchsorted(a, v, side='left'):
    raise Unsupported('searchsorted')


def digitize(a, bins):
    raise Unsupported('digitize')


def histogram(a, bins=10, range=None, weights=None):
    a, b = _c(a), _c(bins)
    if not isinstance(b, SArr) or range is not None or weights is not None:
        raise Unsupported('histogram bins')
    nb = num(b.shape[0]) - 1
    lo, hi, f, g = guarded(a)
    e = b.get()
    nbz = zi(nb)

    def fn(ix):
        i = ix[0]

        def inb(x):
            v = num(f(x))
            c = z3.And(zb(num(e((i,))) <= v), z3.Or(zb(v < num(e((i + 1,)))),
                                                   z3.And(i == nbz - 1, zb(v == num(e((i + 1,)))))))
            return z3.And(g(x), c) if g else c
        return mkred('count', lo, hi, lambda x: 1, inb)
    return SArr((nb,), fn, 'i'), b


def histogram2d(a, b, bins=10):
    a, b = _c(a), _c(b)
    ea, eb = _c(bins[0]), _c(bins[1])
    na, nb = num(ea.shape[0]) - 1, num(eb.shape[0]) - 1
    lo, hi, f, g = guarded(a)
    lo2, hi2, f2, g2 = guarded(b)
    if not norm(hi).eq(norm(hi2)) or (g is None) != (g2 is None):
        raise Unsupported('histogram2d columns')
    p, q = ea.get(), eb.get()

    def inb(v, e, i, n):
        return z3.And(zb(num(e((i,))) <= v), z3.Or(zb(v < num(e((i + 1,)))),
                                                  z3.And(i == zi(n) - 1, zb(v == num(e((i + 1,)))))))

    def fn(ix):
        def c(x):
            r = z3.And(inb(num(f(x)), p, ix[0], na), inb(num(f2(x)), q, ix[1], nb))
            return z3.And(g(x), r) if g else r
        return toreal(mkred('count', lo, hi, lambda x: 1, c))
    return SArr((na, nb), fn, 'f'), ea, eb


def unique(a, **k):
    if k:
        raise Unsupported('unique options')
    a = _c(a)
    n = sym.fresh('NUNIQUE')
    RT.assume(n >= 0)
    u = z3.Function('UNIQ!%d' % next(sym._cnt), I, Rl)
    return SArr((mknum(n),), lambda ix: mknum(u(ix[0])), 'f')


def interp(*a, **k):
    raise Unsupported('interp')


trapz = interp


class _Err(object):
    def __call__(self, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


errstate = seterr = _Err()


# ------------------------------------------------------------------ random
class Sampler(object):
    """pseudo random generator: draw number c of a generator with a seed term is a function of (seed, c, index)"""
    def __init__(self, seed):
        self.st = {'count': num(0), 'seed': seed}

    def __sym_through__(self):
        return [self.st]

    def normal(self, loc=0, scale=1, size=None):
        c = self.st['count']
        self.st['count'] = c + 1
        seed = self.st['seed']
        if not isinstance(seed, z3.ExprRef):
            seed = toreal(num(seed)).real()
        if size is None:
            return num(loc) + num(scale) * mknum(DEV(seed, zi(c), z3.IntVal(0)))
        sh = _shape(size)
        if len(sh) != 1:
            raise Unsupported('matrix of deviates')
        return SArr(sh, lambda ix: num(loc) + num(scale) * mknum(DEV(seed, zi(c), ix[0])), 'f')

    def standard_normal(self, size=None):
        return self.normal(0, 1, size)

    def randn(self, *n):
        return self.normal(0, 1, n[0] if n else None)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('random.%s' % a)


DEV = z3.Function('DEVIATE', Rl, I, I, Rl)
UNSEEDED = z3.Real('UNSEEDED')


class _Random(object):
    def __init__(self):
        self.default = Sampler(UNSEEDED)
        self.log = []

    def RandomState(self, seed=None):
        s = force(seed)
        if s is None:
            return Sampler(sym.fresh('SEED', Rl))
        return Sampler(toreal(num(s)).real())

    default_rng = None

    def seed(self, s=None):
        self.default.st['seed'] = sym.fresh('SEED', Rl) if s is None else toreal(num(force(s))).real()
        self.default.st['count'] = num(0)

    def normal(self, *a, **k):
        return self.default.normal(*a, **k)

    def standard_normal(self, *a):
        return self.default.standard_normal(*a)

    def randn(self, *a):
        return self.default.randn(*a)

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('numpy.random.%s' % a)


random = _Random()


# ------------------------------------------------------------------ files
def savetxt(fname, X, fmt='%.18e', delimiter=' ', **k):
    from . import lib
    return lib.np_savetxt(fname, X, fmt, delimiter, k)


def genfromtxt(fname, **k):
    from . import lib
    return lib.np_genfromtxt(fname, k)


def loadtxt(fname, **k):
    from . import lib
    return lib.np_genfromtxt(fname, k)


def seterr(**k):
    return {}


def module():
    m = types.ModuleType('numpy')
    for k, v in globals().items():
        if not k.startswith('_') and k not in ('types', 'z3', 'sym', 'Fraction', 'RT', 'Seg', 'GenList', 'module'):
            setattr(m, k, v)
    m.float = m.int = m.bool = None
    for k in ('float', 'int', 'bool'):
        delattr(m, k)
    m.e = sym.exp(1)
    m.inf = None
    m.nan = None
    lin = types.ModuleType('numpy.random')

    def ga(name):
        raise Unsupported('numpy.%s' % name)
    m.__getattr__ = ga
    return m
