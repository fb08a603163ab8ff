"""Arrays of symbolic shape: an index -> element function plus in-place writes and views."""
import z3
from fractions import Fraction
from . import sym, rt as _rtm
from .rt import RT, Seg, same
from .sym import (SNum, SBool, Unsupported, num, zb, zi, mknum, mkbool, ite, land, lor, implies, norm, subst,
                  bvar, I, Rl, B, isnum, not_, mkred, mksel, cast, toreal, BoundSel, Choice, force)


def dim(n):
    n = num(n)
    if n.c is not None:
        return int(n.c)
    return n


def dz(n):
    return zi(n)


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return norm(zi(a)).eq(norm(zi(b)))


def is1(d):
    return isinstance(d, int) and d == 1


_DT = {float: 'f', int: 'i', bool: 'b', 'float': 'f', 'int': 'i', 'bool': 'b', object: 'o', None: None,
       'float64': 'f', 'f': 'f', 'i': 'i', 'b': 'b', 'o': 'o', 'int64': 'i', 'int32': 'i', 'float32': 'f'}


def dtc(t):
    if isinstance(t, str) and t.startswith('dt:'):
        return t[3:]
    if hasattr(t, '_dt'):
        return t._dt
    try:
        return _DT[t]
    except (KeyError, TypeError):
        raise Unsupported('dtype %r' % (t,))


def promote(*dts):
    for d in 'ofib':
        if d in dts:
            return d
    return 'f'


def dt_of(v):
    if isinstance(v, SArr):
        return v.dt
    if isinstance(v, (bool, SBool)):
        return 'b'
    if isnum(v):
        return 'i' if num(v).int else 'f'
    if hasattr(v, '__sym_num__'):
        return 'f'
    return 'o'


def memo(fn):
    cache = {}

    def g(ix):
        key = tuple(t.get_id() for t in ix)
        hit = cache.get(key)
        if hit is not None:
            return hit[1]
        r = fn(ix)
        cache[key] = (ix, r)
        return r
    return g


def castv(v, dt):
    if dt == 'o':
        return v
    if dt == 'b':
        return v if isinstance(v, (bool, SBool)) else (num(v) != 0)
    v = num(v)
    return cast(v, dt)


class SArr(object):
    __array_priority__ = 1000
    reversed = False

    @staticmethod
    def reverses(ix):
        ix = [x for x in (ix if isinstance(ix, tuple) else (ix,)) if isinstance(x, slice)]
        return len(ix) == 1 and ix[0].step is not None and const_idx(ix[0].step) == -1

    def __init__(self, shape, fn, dt, via=None, base=None, inv=None):
        self.shape = tuple(dim(d) for d in shape)
        self._fn = memo(fn) if fn is not None else None
        self.dt = dt
        self.via = via or (None,) * len(self.shape)
        self.base, self.vmap, self.inv = None, None, None
        if base is not None:
            self.base, self.vmap, self.inv = base[0], base[1], base[2]

    # --- state protocol
    def __sym_state__(self):
        return (self._fn, self.shape, self.dt)

    def __sym_restore__(self, s):
        self._fn, self.shape, self.dt = s

    def __sym_kids__(self):
        return [self.base] if self.base is not None else []

    def __sym_merge__(self, conds, vs):
        r = vs[-1]
        for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
            if v[0] is r[0]:
                continue
            if v[1] != r[1] and not (len(v[1]) == len(r[1]) and all(dim_eq(a, b) for a, b in zip(v[1], r[1]))):
                raise Unsupported('array shapes differ between paths')
            f, g, cc = v[0], r[0], mkbool(c)
            r = (memo(lambda ix, f=f, g=g, cc=cc: ite(cc, f(ix), g(ix))), v[1], v[2])
        return r

    def __sym_same__(self, o):
        return isinstance(o, SArr) and self.base is None and o.base is None and self._fn is o._fn \
            and len(self.shape) == len(o.shape)

    def __sym_subst__(self, pairs):
        f = self.get()
        a = SArr([_rtm.vsubst(d, pairs) if not isinstance(d, int) else d for d in self.shape],
                 lambda ix: subst_fn(f, ix, pairs), self.dt,
                 tuple(v and v.subst(pairs) for v in self.via))
        return a

    def __sym_ite__(self, c, o):
        if isinstance(o, SArr) and len(o.shape) == len(self.shape) and \
                all(dim_eq(a, b) for a, b in zip(self.shape, o.shape)):
            f, g = self.get(), o.get()
            return SArr(self.shape, lambda ix: ite(c, f(ix), g(ix)), promote(self.dt, o.dt))
        return Choice(c, self, o)

    def __sym_parts__(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        n = self.shape[0]
        if isinstance(n, int) and n <= 64:
            return [('c', self[i]) for i in range(n)]
        return [('s', num(n), lambda i: self._row(i))]

    def __sym_len__(self):
        return self.shape[0]

    def __sym_truth__(self):
        if self.size1():
            return truthv(self.scalar())
        raise ValueError('The truth value of an array is ambiguous')

    def _row(self, i):
        return self.index((mknum(zi(i)),), check=False)

    # --- access
    def get(self):
        if self.base is None:
            return self._fn
        f, m = self.base.get(), self.vmap
        return memo(lambda ix: f(m(ix)))

    def at(self, *ix):
        return self.get()(tuple(zi(i) for i in ix))

    def size1(self):
        return all(is1(d) for d in self.shape)

    def scalar(self):
        return self.get()(tuple(z3.IntVal(0) for _ in self.shape))

    def write(self, cond, val):
        """elements with cond(ix) become val(ix)"""
        if self.base is not None:
            inv = self.inv

            def c(bx):
                ok, vx = inv(bx)
                return z3.And(ok, cond(vx))
            return self.base.write(c, lambda bx: val(inv(bx)[1]))
        old, dt = self._fn, self.dt
        if dt == 'o' or True:
            self._fn = memo(lambda ix: ite(mkbool(norm(cond(ix))), castv(val(ix), dt), old(ix)))

    def copy(self):
        f = self.get()
        return SArr(self.shape, f, self.dt, self.via)

    # --- attributes
    @property
    def T(self):
        if len(self.shape) < 2:
            return self
        if len(self.shape) != 2:
            raise Unsupported('transpose')
        return SArr((self.shape[1], self.shape[0]), None, self.dt, (self.via[1], self.via[0]),
                    base=(self, lambda ix: (ix[1], ix[0]), lambda bx: (z3.BoolVal(True), (bx[1], bx[0]))))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = d * r
        return r

    @property
    def dtype(self):
        return 'dt:' + self.dt

    @property
    def flat(self):
        return self.flatten()

    def astype(self, t, copy=True):
        d = dtc(t)
        f = self.get()
        return SArr(self.shape, lambda ix: castv(f(ix), d), d, self.via)

    def flatten(self):
        f = self.get()
        if len(self.shape) == 1:
            return SArr(self.shape, f, self.dt, self.via)
        if len(self.shape) == 2 and is1(self.shape[1]):
            return SArr((self.shape[0],), lambda ix: f((ix[0], z3.IntVal(0))), self.dt, (self.via[0],))
        if len(self.shape) == 2 and is1(self.shape[0]):
            return SArr((self.shape[1],), lambda ix: f((z3.IntVal(0), ix[0])), self.dt, (self.via[1],))
        if len(self.shape) == 0:
            return SArr((1,), lambda ix: f(()), self.dt)
        m = self.shape[1]
        if len(self.shape) == 2 and isinstance(m, int):
            return SArr((self.shape[0] * m,), lambda ix: f((ix[0] / m, ix[0] % m)), self.dt)
        raise Unsupported('flatten')

    ravel = flatten

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        sh = [dim(s) for s in sh]
        f = self.get()
        if len(sh) == 1 and sh[0] == -1:
            return self.flatten()
        if len(sh) == 2 and len(self.shape) == 1:
            if is1(sh[1]):
                return SArr((self.shape[0], 1), lambda ix: f((ix[0],)), self.dt, (self.via[0], None))
            if is1(sh[0]):
                return SArr((1, self.shape[0]), lambda ix: f((ix[1],)), self.dt, (None, self.via[0]))
            if isinstance(sh[1], int) and sh[1] > 0:
                m = sh[1]
                if isinstance(self.shape[0], int):
                    n = self.shape[0] // m
                else:
                    n = mknum(zi(self.shape[0]) / m)
                return SArr((n, m), lambda ix: f((ix[0] * m + ix[1],)), self.dt)
        if len(sh) == 2 and len(self.shape) == 2 and isinstance(sh[1], int) and dim_eq(sh[1], self.shape[1]):
            return self.copy()
        if len(sh) == 2 and len(self.shape) == 2 and is1(sh[1]) and is1(self.shape[1]):
            return self.copy()
        raise Unsupported('reshape %r to %r' % (self.shape, sh))

    def sum(self, axis=None, **k):
        from . import npm
        return npm.sum(self, axis=axis)

    def max(self, axis=None):
        from . import npm
        return npm.max(self, axis)

    def min(self, axis=None):
        from . import npm
        return npm.min(self, axis)

    def mean(self, axis=None):
        from . import npm
        return npm.mean(self, axis)

    def std(self, axis=None, ddof=0):
        from . import npm
        return npm.std(self, axis, ddof=ddof)

    def any(self, axis=None):
        from . import npm
        return npm.any(self, axis)

    def all(self, axis=None):
        from . import npm
        return npm.all(self, axis)

    def cumsum(self, axis=None):
        from . import npm
        return npm.cumsum(self)

    def argmax(self):
        from . import npm
        return npm.argmax(self)

    def argmin(self):
        from . import npm
        return npm.argmin(self)

    def argsort(self, **k):
        from . import npm
        return npm.argsort(self)

    def nonzero(self):
        from . import npm
        return npm.nonzero(self)

    def item(self, *a):
        if self.size1():
            return self.scalar()
        raise Unsupported('item')

    def tolist(self):
        return [Seg(self.shape[0], lambda i: self._row(i))]

    def round(self, decimals=0):
        from . import npm
        return npm.around(self, decimals)

    def dot(self, o):
        from . import npm
        return npm.sum(ew(lambda a, b: num(a) * num(b), self, o))

    def __iter__(self):
        for p in self.__sym_parts__():
            if p[0] == 's':
                raise Unsupported('native iteration over an array of symbolic length')
            yield p[1]

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported('native len of an array of symbolic length')

    def __bool__(self):
        return bool(self.__sym_truth__())

    def __index__(self):
        if self.size1():
            return num(self.scalar()).__index__()
        raise TypeError('only size-1 arrays can be converted')

    def __str__(self):
        return '<array>'

    def __repr__(self):
        return '<SArr %s %s>' % (self.dt, self.shape)

    def __format__(self, s):
        return '<array>'

    __hash__ = object.__hash__

    # --- operators
    def __add__(self, o): return bop('+', self, o)
    def __radd__(self, o): return bop('+', o, self)
    def __sub__(self, o): return bop('-', self, o)
    def __rsub__(self, o): return bop('-', o, self)
    def __mul__(self, o): return bop('*', self, o)
    def __rmul__(self, o): return bop('*', o, self)
    def __truediv__(self, o): return bop('/', self, o)
    def __rtruediv__(self, o): return bop('/', o, self)
    def __pow__(self, o): return bop('**', self, o)
    def __rpow__(self, o): return bop('**', o, self)
    def __floordiv__(self, o): return bop('//', self, o)
    def __rfloordiv__(self, o): return bop('//', o, self)
    def __mod__(self, o): return bop('%', self, o)
    def __rmod__(self, o): return bop('%', o, self)
    def __neg__(self): return bop('*', self, -1)
    def __pos__(self): return self
    def __abs__(self): return ew(sym.absv, self)
    def __lt__(self, o): return bop('<', self, o)
    def __le__(self, o): return bop('<=', self, o)
    def __gt__(self, o): return bop('>', self, o)
    def __ge__(self, o): return bop('>=', self, o)
    def __eq__(self, o): return bop('==', self, o) if o is not None else False
    def __ne__(self, o): return ew(not_, bop('==', self, o)) if o is not None else True
    def __and__(self, o): return ew(lambda a, b: land(truthv(a), truthv(b)), self, o)
    __rand__ = __and__
    def __or__(self, o): return ew(lambda a, b: lor(truthv(a), truthv(b)), self, o)
    __ror__ = __or__
    def __xor__(self, o): return ew(lambda a, b: mkbool(z3.Xor(zb(truthv(a)), zb(truthv(b)))), self, o)
    def __invert__(self):
        if self.dt != 'b':
            raise Unsupported('~ on numbers')
        return ew(not_, self)

    def inplace(self, op, o):
        r = bop(op, self, o)
        if self.dt == 'i' and r.dt == 'f':
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        if self.dt == 'b' and op in '+-*/':
            raise TypeError('bool in place')
        self.assign_all(r)
        return self

    def __iadd__(self, o): return self.inplace('+', o)
    def __isub__(self, o): return self.inplace('-', o)
    def __imul__(self, o): return self.inplace('*', o)
    def __itruediv__(self, o): return self.inplace('/', o)
    def __iand__(self, o):
        self.assign_all(self & o)
        return self
    def __ior__(self, o):
        self.assign_all(self | o)
        return self

    def assign_all(self, v):
        self.setindex((), v)

    # --- indexing
    def index(self, ix, check=True):
        pl = plan(self, ix, check)
        if pl.fancy is not None:
            f = self.get()
            m = pl.fwd
            a = SArr(pl.shape, lambda v: f(m(v)), self.dt, pl.via)
            if not pl.shape:
                return f(m(()))
            return a
        if not pl.shape:
            return self.get()(pl.fwd(()))
        r = SArr(pl.shape, None, self.dt, pl.via, base=(self, pl.fwd, pl.inv))
        r.reversed = len(pl.shape) == 1 and self.reverses(ix)
        return r

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix,)
        return self.index(ix)

    def setindex(self, ix, v):
        if len(ix) == 1 and isinstance(ix[0], SArr) and ix[0].dt == 'b' and len(ix[0].shape) == 2:
            m = ix[0].get()
            if isinstance(v, SArr) and not v.size1():
                raise Unsupported('2-d mask assignment of an array')
            val = v.scalar() if isinstance(v, SArr) else v
            return self.write(lambda bx: zb(m(bx)), lambda bx: val)
        pl = plan(self, ix, True, write=True)
        v = force(v)
        if isinstance(v, (list, tuple)):
            from . import npm
            v = npm.array(v)
        if isinstance(v, SArr):
            f = v.get()
            sh = pl.shape
            vsh = v.shape
            k = len(sh) - len(vsh)
            if k < 0:
                if all(is1(d) for d in vsh[:-len(sh) or None]):
                    drop = len(vsh) - len(sh)
                    g = f
                    f = lambda ix_, g=g, drop=drop: g((z3.IntVal(0),) * drop + tuple(ix_))
                    vsh = vsh[drop:]
                    k = 0
                else:
                    raise ValueError('could not broadcast')
            for d, e in zip(sh[k:], vsh):
                if not is1(e) and not dim_eq(d, e):
                    if isinstance(d, int) and isinstance(e, int):
                        raise ValueError('could not broadcast input array')
                    RT.require('shapes of assigned array match', num(d) == num(e))

            def val(bx):
                vx = pl.inv(bx)[1][k:]
                return f(tuple(z3.IntVal(0) if is1(e) else x for x, e in zip(vx, vsh)))
        else:
            def val(bx):
                return v
        self.write(lambda bx: pl.inv(bx)[0], val)

    def __setitem__(self, ix, v):
        if not isinstance(ix, tuple):
            ix = (ix,)
        self.setindex(ix, v)


def subst_fn(f, ix, pairs):
    ts = tuple(bvar('t') for _ in ix)
    v = _rtm.vsubst(f(ts), pairs)
    return _rtm.vsubst(v, list(zip(ts, ix))) if ts else v


BoundSel.subst = lambda self, pairs: BoundSel(self.s, [subst(a, pairs) for a in self.args])


def truthv(v):
    if isinstance(v, (bool, SBool)):
        return v
    return num(v) != 0


class Plan(object):
    pass


def const_idx(i):
    i = num(i)
    return int(i.c) if i.c is not None else None


def plan(a, ix, check, write=False):
    """how an index selects from array a"""
    ix = [force(x) for x in ix]
    n_el = sum(1 for x in ix if x is None)
    if Ellipsis in [x for x in ix if x is Ellipsis]:
        p = [x is Ellipsis for x in ix].index(True)
        miss = len(a.shape) - (len(ix) - 1 - n_el)
        ix = ix[:p] + [slice(None)] * miss + ix[p + 1:]
    while len(ix) - n_el < len(a.shape):
        ix.append(slice(None))
    if len(ix) - n_el > len(a.shape):
        raise IndexError('too many indices for array')
    shape, via = [], []
    fw, iv = [], []       # per base axis: fwd(viewidx)->z3 ; inv(b)->(cond, value or None)
    fancy = None
    ax = 0
    narr = 0
    for x in ix:
        if x is None:
            shape.append(1)
            via.append(None)
            iv.append((None, len(shape) - 1, lambda b: (z3.BoolVal(True), z3.IntVal(0))))
            continue
        n = a.shape[ax]
        if isinstance(x, (list,)):
            from . import npm
            x = npm.array(x)
        if isinstance(x, SArr) and x.size1() and x.dt != 'b' and len(x.shape) == 0:
            x = x.scalar()
        if isinstance(x, bool) or isinstance(x, SBool):
            raise Unsupported('boolean scalar index')
        if isnum(x) or hasattr(x, '__sym_num__'):
            e = num(x)
            if not e.int:
                if e.c is None or True:
                    raise IndexError('only integers, slices are valid indices')
            c = const_idx(e)
            if c is not None and c < 0:
                e = num(n) + c
                if check:
                    bound(e >= 0, 'index out of bounds')
            elif c is None:
                e2 = norm(e.z)
                if check:
                    bound(land(e >= 0 - num(n), e < n), 'index within bounds')
                    # negative symbolic indices wrap
                    if not neg_impossible(e2):
                        e = ite(e < 0, e + n, e)
            elif check:
                bound(num(n) > c, 'index within bounds')
            ez = zi(e)
            fw.append(lambda v, ez=ez: ez)
            iv.append((ax, None, lambda b, ez=ez: (b == ez, None)))
        elif isinstance(x, slice):
            st = x.step
            st = 1 if st is None else const_idx(st)
            if st not in (1, -1) and (st is None or st < 1):
                raise Unsupported('slice step')
            if st == -1:
                if x.start is not None or x.stop is not None:
                    raise Unsupported('reversed slice with bounds')
                p = len(shape)
                shape.append(n)
                via.append(None)
                nz = zi(n)
                fw.append(lambda v, p=p, nz=nz: nz - 1 - v[p])
                iv.append((ax, p, lambda b, nz=nz: (z3.BoolVal(True), nz - 1 - b)))
            else:
                lo = clip_idx(x.start, n, 0)
                hi = clip_idx(x.stop, n, n)
                full = const_idx(lo) == 0 and dim_eq(dim(hi), n) and st == 1
                ln_ = num(hi) - num(lo)
                if st != 1:
                    ln_ = sym.floor(toreal(ln_ + (st - 1)) / st)
                if not full:
                    nn = norm(ln_.z)
                    if z3.is_int_value(nn):
                        ln_ = num(max(0, nn.as_long()))
                    elif not nonneg(ln_):
                        ln_ = ite(ln_ >= 0, ln_, 0)
                    else:
                        ln_ = mknum(nn)
                p = len(shape)
                shape.append(n if full else ln_)
                via.append(a.via[ax] if full else None)
                lz, lnz = zi(lo), zi(ln_)
                if full:
                    fw.append(lambda v, p=p: v[p])
                    iv.append((ax, p, lambda b: (z3.BoolVal(True), b)))
                elif st == 1:
                    fw.append(lambda v, p=p, lz=lz: v[p] + lz)
                    iv.append((ax, p, lambda b, lz=lz, lnz=lnz: (z3.And(b >= lz, b < lz + lnz), b - lz)))
                else:
                    fw.append(lambda v, p=p, lz=lz, st=st: v[p] * st + lz)
                    iv.append((ax, p, lambda b, lz=lz, lnz=lnz, st=st:
                               (z3.And(b >= lz, b < lz + lnz * st, (b - lz) % st == 0), (b - lz) / st)))
        elif isinstance(x, SArr):
            narr += 1
            if narr > 1:
                raise Unsupported('several array indices')
            if x.dt == 'b':
                if len(x.shape) != 1:
                    if len(x.shape) == 2 and len(a.shape) == 2 and is1(x.shape[1]) and is1(a.shape[1]) and len(ix) <= 2:
                        # (n, 1) mask on (n, 1) array: 1-d result
                        g = x.get()
                        x = SArr((x.shape[0],), lambda v, g=g: g((v[0], z3.IntVal(0))), 'b')
                        fancy = True
                        s = mksel(zi(n), lambda i, x=x: zb(x.at(i)))
                        p = len(shape)
                        shape.append(s.count())
                        via.append(s)
                        fw.append(lambda v, p=p, s=s: s.sel(v[p]))
                        iv.append((ax, p, lambda b, s=s: (s.pred(b), s.rank(b))))
                        fw.append(lambda v: z3.IntVal(0))
                        iv.append((ax + 1, None, lambda b: (z3.BoolVal(True), None)))
                        ax += 2
                        break
                    raise IndexError('too many indices for array')
                if not dim_eq(x.shape[0], n):
                    if isinstance(x.shape[0], int) and isinstance(n, int):
                        raise IndexError('boolean index did not match')
                    RT.require('boolean index has the length of the array', num(x.shape[0]) == num(n))
                fancy = True
                s = mksel(zi(n), lambda i, x=x: zb(x.at(i)))
                p = len(shape)
                shape.append(s.count())
                via.append(s)
                fw.append(lambda v, p=p, s=s: s.sel(v[p]))
                iv.append((ax, p, lambda b, s=s: (s.pred(b), s.rank(b))))
            else:
                if x.dt == 'f':
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
                fancy = True
                g = x.get()
                p = len(shape)
                for d in x.shape:
                    shape.append(d)
                    via.append(None)
                q = len(x.shape)
                if q == 1:
                    via[-1] = x.via[0]
                if check and not perm_of(x, n):
                    j = tuple(bvar('q') for _ in x.shape)
                    gj = num(g(j))
                    inr = z3.And([z3.And(0 <= jj, jj < zi(d)) for jj, d in zip(j, x.shape)] + [z3.BoolVal(True)])
                    if x.via[0] is None or q != 1:
                        if x.size1():
                            bound(land(gj_at(g, x) >= 0 - num(n), gj_at(g, x) < n), 'index within bounds')
                        else:
                            RT.require('indices within bounds', mkbool(z3.ForAll(list(j), z3.Implies(
                                inr, z3.And(gj.z >= -zi(n), gj.z < zi(n))))))

                def fwd(v, p=p, q=q, g=g, n=n, x=x):
                    e = zi(g(tuple(v[p:p + q])))
                    if neg_impossible(norm(e)) or isinstance(x.via[0] if q == 1 else None, BoundSel):
                        return e
                    return z3.If(e < 0, e + zi(n), e)
                fw.append(fwd)
                if write:
                    s = x.via[0] if q == 1 else None
                    if s is not None and elem_is_sel(x, s):
                        iv.append((ax, p, lambda b, s=s: (z3.And(b >= 0, b < s.n, s.pred(b)), s.rank(b))))
                    elif x.size1():
                        e = gj_at(g, x)
                        e = ite(e < 0, e + n, e)
                        for t in range(q):
                            pass
                        iv.append((ax, p, lambda b, e=e: (b == zi(e), z3.IntVal(0))))
                    else:
                        pi = perm_inverse(x)
                        if pi is not None:
                            iv.append((ax, p, lambda b, pi=pi: (z3.BoolVal(True), pi(b))))
                        else:
                            def iex(b, g=g, x=x):
                                j = bvar('q')
                                return (z3.Exists([j], z3.And(0 <= j, j < zi(x.shape[0]), zi(g((j,))) == b)),
                                        z3.IntVal(0))
                            iv.append((ax, p, iex))
        else:
            raise Unsupported('index %r' % (x,))
        ax += 1
    pl = Plan()
    pl.shape, pl.via, pl.fancy = tuple(dim(d) for d in shape), tuple(via), fancy
    pl.fwd = lambda v: tuple(f(v) for f in fw)

    def inv(bx):
        cond, vx = [], [z3.IntVal(0)] * len(shape)
        for axis, p, f in iv:
            if axis is None:
                vx[p] = z3.IntVal(0)
                continue
            c, e = f(bx[axis])
            if not z3.is_true(c):
                cond.append(c)
            if p is not None:
                vx[p] = e
        return (z3.And(cond) if cond else z3.BoolVal(True)), tuple(vx)
    pl.inv = inv
    return pl


def gj_at(g, x):
    return num(g(tuple(z3.IntVal(0) for _ in x.shape)))


def neg_impossible(e):
    """cheap syntactic non-negativity of an index term"""
    if z3.is_int_value(e):
        return e.as_long() >= 0
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm.startswith(('?', 'SEL_', 'RANK_', 'PERM', 'IPERM', 'N!', 'ARGMAX', 'ARGMIN')):
                return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            if all(neg_impossible(c) for c in e.children()):
                return True
    z = z3.simplify(e >= 0)
    if z3.is_true(z):
        return True
    for p in RT.pc:
        if p.eq(norm(e >= 0)):
            return True
    from . import solve
    return solve.quick_valid(RT.pc, e >= 0)


def nonneg(x):
    x = num(x)
    if x.c is not None:
        return x.c >= 0
    return neg_impossible(norm(x.z))


def bound(c, what):
    if c is True:
        return
    if c is False:
        raise IndexError(what)
    z = norm(zb(c))
    if z3.is_true(z):
        return
    from . import solve
    if solve.quick_valid(RT.pc, z):
        return
    # fork: out of range raises IndexError as the real code does
    if not RT.decide(z):
        raise IndexError(what)


def clip_idx(v, n, default):
    if v is None:
        return num(default)
    v = num(v)
    if not v.int:
        raise TypeError('slice indices must be integers')
    if v.c is not None:
        c = int(v.c)
        if isinstance(n, int):
            return num(min(max(c + n if c < 0 else c, 0), n))
        if c < 0:
            r = num(n) + c
            if nonneg(r):
                return r
            return ite(r >= 0, r, 0)
        if c == 0:
            return num(0)
        return num(c) if nonneg(num(n) - c) else ite(num(n) >= c, num(c), n)
    nz = norm(v.z)
    v = mknum(nz)
    lo_ok = neg_impossible(nz)
    if not lo_ok:
        if neg_impossible(norm((-v - 1).z)):
            w = num(n) + v
            return w if nonneg(w) else ite(w >= 0, w, 0)
        v2 = ite(v < 0, ite(v + n >= 0, v + n, 0), v)
    else:
        v2 = v
    if nonneg(num(n) - v):
        return v2
    return ite(v2 <= n, v2, n)


# ----------------------------------------------------------------- permutations
PERMS = {}


def elem_is_sel(x, s):
    j = bvar('t')
    e = norm(zi(x.get()((j,))))
    return e.eq(norm(s.sel(j)))


def affine(e, j):
    """e = sgn * j + c with sgn in {1, -1}; returns (sgn, c poly expr) or None"""
    p = dict(sym.topoly(e))
    key = ((sym.atom(j), 1),)
    s = p.pop(key, None)
    if s not in (1, -1):
        return None
    c = sym.frompoly(p, I)
    if any(v.eq(j) for v in free_bindables_(c)):
        return None
    return int(s), c


def free_bindables_(e):
    return sym.free_bindables(e)


def perm_parts(x):
    """x(j) = PERM(args, affine(j)): returns (perm entry, args, sgn, c)"""
    if len(x.shape) != 1:
        return None
    j = bvar('t')
    e = norm(zi(x.get()((j,))))
    af = affine(e, j)
    if af is not None:
        return ('id', None, af[0], af[1])
    if z3.is_app(e) and e.decl().name() in PERMS:
        args = e.children()
        if any(any(v.eq(j) for v in sym.free_bindables(a)) for a in args[:-1]):
            return None
        af = affine(args[-1], j)
        if af is None:
            return None
        return (PERMS[e.decl().name()], args[:-1], af[0], af[1])
    return None


def perm_of(x, n):
    """is x known to be a permutation of range(n)?"""
    if len(x.shape) != 1 or not dim_eq(x.shape[0], n):
        return False
    pp = perm_parts(x)
    if pp is None:
        return False
    sgn, c = pp[2], norm(pp[3])
    ok = c.eq(z3.IntVal(0)) if sgn == 1 else norm(c - (zi(n) - 1)).eq(z3.IntVal(0))
    return ok and (pp[0] == 'id' or dim_eq(dim(mknum(pp[0].nterm(pp[1]))), n))


def perm_inverse(x):
    """for a permutation array x of its own length: the inverse as a function on z3 Int"""
    if not perm_of(x, x.shape[0]):
        return None
    pp = perm_parts(x)
    ent, args, sgn, c = pp

    def inv(b):
        t = b if ent == 'id' else ent.inverse(args, b)
        return t - c if sgn == 1 else c - t
    return inv


class Perm(object):
    """argsort of an array: P(i) and its inverse"""
    def __init__(self, params, x, n, key, name):
        self.params, self.x, self.n, self.key = params, x, n, key
        srt = [p.sort() for p in params] + [I, I]
        self.P = z3.Function('PERM_%s' % name, *srt)
        self.Q = z3.Function('IPERM_%s' % name, *srt)
        self.inv = {self.P.name(): self.Q, self.Q.name(): self.P}

    def nterm(self, args):
        return subst(self.n, list(zip(self.params, args)))

    def inverse(self, args, b):
        return self.Q(*(list(args) + [b]))


def mkperm(n, f):
    """sorting permutation of the keys f(z3 Int) -> SNum; ties in an unspecified order"""
    x = bvar('x')
    body = norm(toreal(num(f(x))).real())
    n = norm(zi(n))
    params, key = sym._canon('perm', (n, body), x)
    r = sym._RKEY.get(key)
    if r is None:
        r = Perm(params, x, n, body, str(len(PERMS)))
        PERMS[r.P.name()] = r
        PERMS[r.Q.name()] = r
        sym._RKEY[key] = r
    return r, params


# ----------------------------------------------------------------- elementwise
def asarr(v):
    if isinstance(v, SArr):
        return v
    if isinstance(v, (list, tuple)):
        from . import npm
        return npm.array(v)
    return None


def bshape(arrs):
    nd = max(len(a.shape) for a in arrs)
    out, via = [], []
    for p in range(nd):
        d, s, seen = 1, None, False
        for a in arrs:
            q = p - (nd - len(a.shape))
            if q < 0:
                continue
            e = a.shape[q]
            if is1(e):
                continue
            if not seen:
                d, s, seen = e, a.via[q], True
            else:
                if not dim_eq(d, e):
                    if isinstance(d, int) and isinstance(e, int):
                        raise ValueError('operands could not be broadcast together')
                    RT.require('operand shapes match', num(d) == num(e))
                if s is not None and not s.same(a.via[q]):
                    s = None
        out.append(d)
        via.append(s)
    return tuple(out), tuple(via)


def ew(f, *args, dt=None):
    """elementwise f over arrays and scalars"""
    args = [force(a) for a in args]
    args = [asarr(a) if isinstance(a, (list, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, SArr)]
    if not arrs:
        return f(*args)
    shape, via = bshape(arrs)
    nd = len(shape)
    gs = []
    for a in args:
        if isinstance(a, SArr):
            g = a.get()
            k = nd - len(a.shape)
            ones = [is1(d) and not is1(shape[k + q]) for q, d in enumerate(a.shape)]
            ones = [is1(d) for d in a.shape]
            gs.append((g, k, ones))
        else:
            gs.append(a)

    def fn(ix):
        vals = []
        for a in gs:
            if isinstance(a, tuple) and len(a) == 3 and callable(a[0]):
                g, k, ones = a
                vals.append(g(tuple(z3.IntVal(0) if o else ix[k + q] for q, o in enumerate(ones))))
            else:
                vals.append(a)
        return f(*vals)
    if dt is None:
        t = fn(tuple(bvar('t') for _ in shape))
        dt = dt_of(t)
    return SArr(shape, fn, dt, via)


def floordiv(a, b):
    a, b = num(a), num(b)
    if b.c == 0:
        RT.event_zero_division()
    if a.int and b.int:
        if a.c is not None and b.c is not None:
            return SNum(Fraction(int(a.c) // int(b.c)), None, True)
        if b.c is not None and b.c > 0:
            return mknum(a.z / b.z)
        return sym.floor(toreal(a) / toreal(b))
    return toreal(sym.floor(toreal(a) / toreal(b)))


def modulo(a, b):
    a, b = num(a), num(b)
    if b.c == 0:
        RT.event_zero_division()
    if a.int and b.int:
        if a.c is not None and b.c is not None:
            return SNum(Fraction(int(a.c) % int(b.c)), None, True)
        if b.c is not None and b.c > 0:
            return mknum(a.z % b.z)
    return a - b * floordiv(a, b)


_OPS = {'+': lambda a, b: num(a) + num(b), '-': lambda a, b: num(a) - num(b), '*': lambda a, b: num(a) * num(b),
        '/': lambda a, b: num(a) / num(b), '**': lambda a, b: sym.power(a, b), '//': floordiv, '%': modulo,
        '<': lambda a, b: num(a) < num(b), '<=': lambda a, b: num(a) <= num(b), '>': lambda a, b: num(a) > num(b),
        '>=': lambda a, b: num(a) >= num(b), '==': lambda a, b: eqv(a, b)}


def eqv(a, b):
    if isnum(a) and isnum(b):
        return num(a) == num(b)
    if isnum(a) != isnum(b):
        return False
    return a == b


def bop(op, a, b):
    a, b = force(a), force(b)
    for v in (a, b):
        if isinstance(v, str) or v is None or isinstance(v, dict):
            if op == '==':
                return False
            return NotImplemented
    r = ew(_OPS[op], a, b)
    if op == '+' and isinstance(r, SArr) and dt_of(a) == 'b' and dt_of(b) == 'b':
        return ew(lambda x, y: lor(truthv(x), truthv(y)), a, b)
    return r
