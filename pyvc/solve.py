"""Discharging obligations: ring normal form, then z3 on the instantiated axioms of the
uninterpreted symbols, then z3 with quantifiers, then cvc5."""
import hashlib
import itertools
import math
import os
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from . import sym, arr as _arr
from .sym import (I, Rl, B, SIN, COS, EXP, LN, SQRT, TAN, ATAN2, POW, ROUND, PI, ASIN, ACOS, ATAN, rv, norm, subst,
                  REDS, SELS, EXTRA, bvar)

UN = z3.Z3_OP_UNINTERPRETED
SCALE = 1.0     # time limits are stretched by this on a slow or busy machine


def calibrate():
    """how much slower than where the limits were chosen"""
    global SCALE
    best = 9.0
    for _ in range(3):
        t = time.time()
        s = z3.SimpleSolver()
        xs = [z3.Int('c!%d' % i) for i in range(60)]
        for i in range(59):
            s.add(z3.Or(xs[i] + 1 < xs[i + 1], xs[i] + 2 < xs[i + 1]))
        s.add(xs[59] < xs[0])
        s.check()
        best = min(best, time.time() - t)
    SCALE = min(3.0, max(1.0, best / NOMINAL))


NOMINAL = 0.026


def clock():
    return time.time() / SCALE


def is_uf(t):
    return z3.is_app(t) and t.decl().kind() == UN


# ------------------------------------------------------------ term collection
def terms(fs, quants=None):
    """ground applications (of uninterpreted symbols and to_int) in the formulas, in order"""
    out, seen = [], set()
    todo = list(reversed(fs))
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            if quants is not None:
                quants.append(t)
            continue
        if z3.is_app(t):
            k = t.decl().kind()
            if (k == UN and (t.num_args() > 0 or t.decl().name() in REDS or t.decl().name() in EXTRA)) or k == z3.Z3_OP_TO_INT or t.eq(PI):
                out.append(t)
            todo.extend(reversed(t.children()))
    return out


_absc = {}


def abstract(f):
    """quantified subformulas replaced by Boolean constants"""
    hit = _absc.get(f.get_id())
    if hit is not None and hit[0].eq(f):
        return hit[1]
    q = []
    terms([f], q)
    r = f
    if q:
        prs = []
        for t in q:
            nm = 'Q!' + hashlib.md5(t.sexpr().encode()).hexdigest()
            prs.append((t, z3.Bool(nm)))
        r = z3.substitute(f, *prs)
    _absc[f.get_id()] = (f, r)
    return r


# ------------------------------------------------------------ axioms
def _bounds(fn, c, digits=18):
    import mpmath
    with mpmath.workdps(40):
        v = fn(mpmath.mpf(c.numerator) / c.denominator)
        if not mpmath.isfinite(v):
            return None
        f = Fraction(str(v)) if abs(v) < 1e30 else None
        if f is None:
            return None
        e = abs(f) * Fraction(1, 10 ** 25) + Fraction(1, 10 ** 30)
        return f - e, f + e


def const_of(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return None


def inst(r, t, e):
    """body of a reduction/selection at application t"""
    return subst(e, list(zip(r.params, t.children())))


def witness(t, tag, sort=I):
    return z3.Const('w!%s!%s' % (tag, hashlib.md5(t.sexpr().encode()).hexdigest()[:12]), sort)


class Inst(object):
    """reduction application instantiated"""
    def __init__(self, t):
        self.t = t
        r = self.r = REDS[t.decl().name()]
        self.kind = r.kind
        self.lo, self.hi = inst(r, t, r.lo), inst(r, t, r.hi)
        self._b, self._g = inst(r, t, r.body), (None if r.guard is None else inst(r, t, r.guard))
        self.x = r.x

    def body(self, i):
        return subst(self._b, [(self.x, i)])

    def value(self, i):
        """summand within the range"""
        if self._g is None:
            return self.body(i)
        return z3.If(subst(self._g, [(self.x, i)]), self.body(i), z3.IntVal(0) if self.t.sort() == I else z3.RealVal(0))

    def guard(self, i):
        c = z3.And(self.lo <= i, i < self.hi)
        if self._g is not None:
            return z3.And(c, subst(self._g, [(self.x, i)]))
        return c


_single = {}


def single(t):
    hit = _single.get(t.get_id())
    ver = EXTRA.get(t.decl().name())
    if hit is not None and hit[2] is ver and hit[0].eq(t):
        return hit[1]
    r = _mk_single(t)
    _single[t.get_id()] = (t, r, ver)
    return r


def _mk_single(t):
    out = []
    if t.eq(PI):
        return [PI > z3.Q(314159265358979323846, 10 ** 20), PI < z3.Q(314159265358979323847, 10 ** 20)]
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_INT:
        a = t.arg(0)
        return [z3.ToReal(t) <= a, a < z3.ToReal(t) + 1]
    nm = t.decl().name()
    ar = t.children()
    if nm == 'EXP':
        a = ar[0]
        out += [t > 0, t >= 1 + a, z3.Implies(a <= 0, t <= 1), z3.Implies(a < 0, t < 1), z3.Implies(a > 0, t > 1)]
        c = const_of(a)
        if c is not None and abs(c) < 200:
            import mpmath
            b = _bounds(mpmath.exp, c)
            if b:
                out += [t >= rv(b[0]), t <= rv(b[1])]
        if is_uf(a) and a.decl().eq(LN):
            out.append(z3.Implies(a.arg(0) > 0, t == a.arg(0)))
    elif nm == 'LN':
        a = ar[0]
        out += [z3.Implies(a >= 1, t >= 0), z3.Implies(a > 1, t > 0), z3.Implies(z3.And(a > 0, a < 1), t < 0),
                z3.Implies(a > 0, t <= a - 1), z3.Implies(a > 0, EXP(t) == a)]
        c = const_of(a)
        if c is not None and c > 0:
            import mpmath
            b = _bounds(mpmath.log, c)
            if b:
                out += [t >= rv(b[0]), t <= rv(b[1])]
        if is_uf(a) and a.decl().eq(EXP):
            out.append(t == a.arg(0))
    elif nm == 'SQRT':
        a = ar[0]
        out += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0), t >= 0,
                z3.Implies(a <= 1, t <= 1), z3.Implies(a >= 1, t >= 1), z3.Implies(a == 0, t == 0)]
    elif nm == 'SIN':
        a = ar[0]
        out += [t <= 1, t >= -1, z3.Implies(z3.And(a >= 0, a <= PI), t >= 0),
                z3.Implies(z3.And(a > 0, a < PI), t > 0), COS(a) * COS(a) + t * t == 1,
                z3.Implies(a == 0, t == 0)]
    elif nm == 'COS':
        a = ar[0]
        out += [t <= 1, t >= -1, z3.Implies(z3.And(a * 2 >= -PI, a * 2 <= PI), t >= 0),
                z3.Implies(a == 0, t == 1), SIN(a) * SIN(a) + t * t == 1]
    elif nm == 'TAN':
        out += [z3.Implies(COS(ar[0]) != 0, t * COS(ar[0]) == SIN(ar[0]))]
    elif nm == 'ATAN2':
        y, x = ar
        out += [t <= PI, t >= -PI, z3.Implies(y >= 0, t >= 0), z3.Implies(z3.And(x >= 0), z3.And(
            2 * t <= PI, 2 * t >= -PI)), z3.Implies(z3.And(y == 0, x > 0), t == 0)]
    elif nm == 'ASIN':
        out += [2 * t <= PI, 2 * t >= -PI, z3.Implies(z3.And(ar[0] >= -1, ar[0] <= 1), SIN(t) == ar[0]),
                z3.Implies(ar[0] >= 0, t >= 0)]
    elif nm == 'ACOS':
        out += [t <= PI, t >= 0]
    elif nm == 'ROUND':
        d = z3.ToReal(t) - ar[0]
        out += [d <= z3.Q(1, 2), d >= -z3.Q(1, 2)]
    elif nm == 'POW':
        out += [z3.Implies(ar[0] > 0, t > 0), z3.Implies(ar[1] == 1, t == ar[0])]
    elif nm in REDS:
        out += red_axioms(Inst(t))
    elif nm in SELS:
        out += sel_axioms(t)
    elif nm in _arr.PERMS:
        out += perm_axioms(t)
    if nm in EXTRA:
        out += [f for f in EXTRA[nm](*ar)]
    return out


def red_axioms(R):
    t = R.t
    out = []
    w = witness(t, 'r')
    if R.kind == 'sum':
        one = const_of(R.r.body) == 1
        empty = R.hi <= R.lo
        out.append(z3.Implies(empty, t == 0))
        if one:
            out.append(t >= 0)
            out.append(z3.Implies(R.hi >= R.lo, t <= R.hi - R.lo if t.sort() == I else t <= z3.ToReal(R.hi - R.lo)))
            out.append(z3.Implies(t > 0, R.guard(w)))
            if R._g is not None:
                w4 = witness(t, 'all')
                full = R.hi - R.lo if t.sort() == I else z3.ToReal(R.hi - R.lo)
                out.append(z3.Or(empty, t == full, z3.And(R.lo <= w4, w4 < R.hi, z3.Not(R.guard(w4)))))
            if R._g is None:
                out.append(z3.Implies(R.hi >= R.lo, t == (R.hi - R.lo if t.sort() == I else z3.ToReal(R.hi - R.lo))))
        else:
            out.append(z3.Or(t >= 0, z3.And(R.guard(w), R.body(w) < 0)))
            w2 = witness(t, 'r2')
            out.append(z3.Or(t == 0, z3.And(R.guard(w2), R.body(w2) != 0)))
            w3 = witness(t, 'r3')
            out.append(z3.Or(t <= 0, z3.And(R.guard(w3), R.body(w3) > 0)))
        # unfolding at the upper end when that is a parameter
        u = unfold(R)
        if u is not None:
            out.append(u)
    elif R.kind in ('max', 'min'):
        w2 = witness(t, 'm')
        ne = R.guard(w)
        w3 = witness(t, 'n')
        # attained at w3 when some element exists; w: any element
        out.append(z3.Implies(z3.And(R.lo < R.hi) if R._g is None else R.guard(w),
                              z3.And(R.guard(w3), t == R.body(w3))))
        b0 = R.body(R.lo)
        out.append(z3.Implies(R.guard(R.lo), t >= b0 if R.kind == 'max' else t <= b0))
    elif R.kind in ('argmax', 'argmin'):
        out.append(z3.Implies(R.lo < R.hi, z3.And(R.lo <= t, t < R.hi)))
    return out


def neighbours(a, b):
    """a and b: the same sum with ranges that differ by one element at the lower end; its defining equation"""
    R = Inst(a)
    r = R.r
    d = [k for k, (x, y) in enumerate(zip(a.children(), b.children())) if not x.eq(y)]
    if len(d) != 1 or r.params[d[0]].sort() != I:
        return []
    p = r.params[d[0]]
    if any(v.eq(p) for e in (r.hi, r.body, r.guard) if e is not None for v in sym.free_bindables(e)):
        return []
    S = Inst(b)
    k = norm(S.lo - R.lo)
    if not z3.is_int_value(k) or abs(k.as_long()) != 1:
        return []
    if k.as_long() == -1:
        R, S = S, R
    b0 = R.body(R.lo)
    if R._g is not None:
        b0 = z3.If(subst(R._g, [(R.x, R.lo)]), b0, z3.IntVal(0) if b0.sort() == I else z3.RealVal(0))
    return [z3.Implies(R.lo < R.hi, R.t == b0 + S.t)]


def unfold(R):
    r = R.r
    for n, p in enumerate(r.params):
        if p.sort() != I:
            continue
        d = norm(r.hi - p)
        if not z3.is_int_value(d):
            continue
        if any(v.eq(p) for e in (r.lo, r.body, r.guard) if e is not None for v in sym.free_bindables(e)):
            continue
        args = R.t.children()
        a2 = list(args)
        a2[n] = args[n] - 1
        prev = r.decl(*a2)
        last = R.hi - 1
        b = R.body(last)
        if R._g is not None:
            b = z3.If(subst(R._g, [(R.x, last)]), b, z3.IntVal(0) if b.sort() == I else z3.RealVal(0))
        return z3.Implies(R.hi > R.lo, R.t == prev + b)
    return None


def red_at(R, i):
    """facts about a reduction at an index term"""
    t = R.t
    if R.kind == 'sum':
        if const_of(R.r.body) == 1 and R._g is not None:
            p = getattr(R.r, 'prefix', None)
            if p is not None and p is not False:
                return [z3.Implies(z3.And(p, R.lo <= i, i < R.hi), (i < R.lo + t) == R.guard(i))]
            return [z3.Implies(R.guard(i), t >= 1)]
        if R.kind == 'sum':
            w = witness(t, 'r')
            return [z3.Implies(R.guard(i), z3.Or(t >= R.body(i), z3.And(R.guard(w), R.body(w) < 0)))]
        return []
    if R.kind == 'max':
        w3 = witness(t, 'n')
        return [z3.Implies(R.guard(i), z3.And(t >= R.body(i), R.guard(w3), t == R.body(w3)))]
    if R.kind == 'min':
        w3 = witness(t, 'n')
        return [z3.Implies(R.guard(i), z3.And(t <= R.body(i), R.guard(w3), t == R.body(w3)))]
    if R.kind == 'argmax':
        return [z3.Implies(R.guard(i), R.body(t) >= R.body(i)), z3.Implies(z3.And(R.guard(i), i < t), R.body(t) > R.body(i))]
    if R.kind == 'argmin':
        return [z3.Implies(R.guard(i), R.body(t) <= R.body(i)), z3.Implies(z3.And(R.guard(i), i < t), R.body(t) < R.body(i))]
    return []


def sel_axioms(t):
    s = SELS[t.decl().name()]
    args, k = t.children()[:-1], t.children()[-1]
    b = sym.BoundSel(s, args)
    cnt = sym.zi(b.count())
    if t.decl().eq(s.sel):
        return [z3.Implies(z3.And(0 <= k, k < cnt), z3.And(0 <= t, t < b.n, b.pred(t), s.rank(*(args + [t])) == k))]
    return [z3.Implies(z3.And(0 <= k, k < b.n, b.pred(k)), z3.And(0 <= t, t < cnt, s.sel(*(args + [t])) == k))]


def sel_at(t, i):
    """rank facts of index i for the selection of t"""
    s = SELS[t.decl().name()]
    args = t.children()[:-1]
    return [s.rank(*(args + [i]))]


def perm_axioms(t):
    p = _arr.PERMS[t.decl().name()]
    args, k = t.children()[:-1], t.children()[-1]
    n = p.nterm(args)
    inv = p.inv[t.decl().name()]
    return [z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= t, t < n, inv(*(args + [t])) == k))]


def pair_axioms(a, b):
    """facts about two terms with the same symbol family"""
    na, nb = a.decl().name(), b.decl().name()
    if na == nb and na in ('EXP', 'LN', 'SQRT'):
        x, y = a.arg(0), b.arg(0)
        if na == 'EXP':
            return [z3.Implies(x < y, a < b), z3.Implies(y < x, b < a)]
        lo = (x > 0, y > 0) if na == 'LN' else (x >= 0, y >= 0)
        return [z3.Implies(z3.And(lo[0], x < y), a < b), z3.Implies(z3.And(lo[1], y < x), b < a)]
    if na == nb and na == 'ATAN2':
        return []
    if na in REDS and nb in REDS:
        A, Bi = Inst(a), Inst(b)
        if A.kind != Bi.kind or a.sort() != b.sort():
            return []
        w = witness(z3.And(a == b), 'x')
        same_range = z3.And(A.lo == Bi.lo, A.hi == Bi.hi)
        ga, gb = A.guard(w), Bi.guard(w)
        zero = z3.IntVal(0) if a.sort() == I else z3.RealVal(0)
        if A.kind == 'sum':
            near = neighbours(a, b) if na == nb else []
            # equal when the summands (with guard and range) agree everywhere
            d = z3.If(ga, A.body(w), zero) != z3.If(gb, Bi.body(w), zero)
            out = [z3.Or(a == b, d)]
            w2 = witness(z3.And(a == b), 'le')
            out.append(z3.Or(a <= b, z3.If(A.guard(w2), A.body(w2), zero) > z3.If(Bi.guard(w2), Bi.body(w2), zero)))
            w3 = witness(z3.And(a == b), 'ge')
            out.append(z3.Or(a >= b, z3.If(A.guard(w3), A.body(w3), zero) < z3.If(Bi.guard(w3), Bi.body(w3), zero)))
            return out + near
        if A.kind in ('max', 'min'):
            return [z3.Or(a == b, z3.Xor(ga, gb), z3.And(ga, A.body(w) != Bi.body(w)),
                          A.lo >= A.hi)]
        return [z3.Or(a == b, z3.Not(same_range), z3.And(ga, A.body(w) != Bi.body(w)), A.lo >= A.hi)]
    if na in SELS and nb in SELS:
        s, r = SELS[na], SELS[nb]
        ka, kb = a.children()[-1], b.children()[-1]
        if s is r and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
            bs = sym.BoundSel(s, a.children()[:-1])
            if na == nb == s.sel.name():
                cnt = sym.zi(bs.count())
                return [z3.Implies(z3.And(0 <= ka, ka < kb, kb < cnt), a < b),
                        z3.Implies(z3.And(0 <= kb, kb < ka, ka < cnt), b < a)]
            return []
        if a.decl().arity() >= 1 and (na == s.sel.name()) == (nb == r.sel.name()):
            A, Bq = sym.BoundSel(s, a.children()[:-1]), sym.BoundSel(r, b.children()[:-1])
            w = witness(z3.And(a == b), 's')
            pa, pb = z3.And(0 <= w, w < A.n, A.pred(w)), z3.And(0 <= w, w < Bq.n, Bq.pred(w))
            return [z3.Or(z3.Implies(ka == kb, a == b), z3.Xor(pa, pb))]
        return []
    if na in _arr.PERMS and nb in _arr.PERMS:
        p, q = _arr.PERMS[na], _arr.PERMS[nb]
        if p is q and na == nb == p.P.name() and all(x.eq(y) for x, y in zip(a.children()[:-1], b.children()[:-1])):
            ar = a.children()[:-1]
            n = p.nterm(ar)
            ka, kb = a.children()[-1], b.children()[-1]
            key = lambda e: subst(p.key, list(zip(p.params, ar)) + [(p.x, e)])
            return [z3.Implies(z3.And(0 <= ka, ka <= kb, kb < n), key(a) <= key(b)),
                    z3.Implies(z3.And(0 <= kb, kb <= ka, ka < n), key(b) <= key(a))]
    return []


def family(t):
    n = t.decl().name()
    if n in ('EXP', 'LN', 'SQRT'):
        return n
    if n in REDS:
        r = REDS[n]
        return 'red:%s:%s' % (r.kind, t.sort())
    if n in SELS:
        return 'sel:%s' % ('s' if n.startswith('SEL') else 'r')
    if n in _arr.PERMS:
        return 'perm'
    return None


# ------------------------------------------------------------ quick checks
_qc = {}


_linc, _nlname, _skc = {}, {}, {}


def skolems_of(f):
    """conjuncts of an assumed formula, existentials named, other quantified parts abstracted"""
    if not has_quant(f):
        return [f]
    hit = _skc.get(f.get_id())
    if hit is None or not hit[0].eq(f):
        out = []
        skolemise(f, True, out, 'q')
        hit = _skc[f.get_id()] = (f, [abstract(g) for g in out], [g for g in out if z3.is_quantifier(g) and g.is_forall()])
    return hit[1]


def universals_of(f):
    if not has_quant(f):
        return []
    skolems_of(f)
    return _skc[f.get_id()][2]


def matched(fs, ab):
    """instances of the assumed universal facts at the terms of the query (the last formula)"""
    us = [u for f in fs for u in universals_of(f) if u.num_vars() <= 2]
    if not us:
        return []
    ground, sk = {}, []
    for t in terms(skolems_of(fs[-1])):
        ground.setdefault(t.decl().name(), []).append(t)
    if not ground:
        return []
    out = []
    for u in us[-25:]:
        for a in instances(u, ground, sk, 6):
            out.append(abstract(a))
            if len(out) > 60:
                return out
    return out


def linear(f):
    """maximal non-linear subterms replaced by constants"""
    hit = _linc.get(f.get_id())
    if hit is not None and hit[0].eq(f):
        return hit[1]
    prs, seen, todo = [], set(), [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        k = t.decl().kind()
        nl = k == z3.Z3_OP_POWER
        if k == z3.Z3_OP_MUL:
            nl = sum(1 for c in t.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))) > 1
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            nl = not (z3.is_rational_value(t.arg(1)) or z3.is_int_value(t.arg(1)))
        if nl:
            h = _nlname.get(t.get_id())
            if h is None or not h[0].eq(t):
                h = _nlname[t.get_id()] = (t, z3.Const('NL!%d' % len(_nlname), t.sort()))
            prs.append(h)
        else:
            todo.extend(t.children())
    r = z3.substitute(f, *prs) if prs else f
    _linc[f.get_id()] = (f, r)
    return r


_nm, _tm = {}, {}


def named_of(f):
    """the named indices and the reductions of a formula"""
    hit = _nm.get(f.get_id())
    if hit is not None and hit[0].eq(f):
        return hit[1]
    sk, reds, seen = [], [], set()
    todo = [f]
    while todo and len(seen) < 4000:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == UN:
            nm = t.decl().name()
            if nm.startswith('sk!') and t.num_args() == 0 and t.sort() == I:
                sk.append(t)
            elif nm in REDS:
                reds.append(t)
        todo.extend(t.children())
    _nm[f.get_id()] = (f, (sk, reds))
    return sk, reds


def terms_of(fs):
    """as terms, remembering the terms of each formula"""
    out, seen = [], set()
    for f in fs:
        hit = _tm.get(f.get_id())
        if hit is None or not hit[0].eq(f) or hit[2] != len(EXTRA):
            hit = _tm[f.get_id()] = (f, terms([f]), len(EXTRA))
        for t in hit[1]:
            if t.get_id() not in seen:
                seen.add(t.get_id())
                out.append(t)
    return out


def pairs(ab, full):
    """facts about counts at the named indices"""
    sk, reds, seen = [], [], set()
    for f in reversed(ab):
        a, b = named_of(f)
        for l, new in ((sk, a), (reds, b)):
            for t in new:
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    l.append(t)
    for t in reds[:12]:
        for i in sk[:4]:
            for a in red_at(Inst(t), i):
                full.append(abstract(a))


def quick(fs, axioms=True, rlimit=1500000):
    """satisfiability within a small effort: 'unsat', 'sat' (perhaps) or 'unknown'"""
    ab = []
    for f in fs:
        ab += skolems_of(f)
    key = (sym.EXTRA.version,) + tuple(f.get_id() for f in ab)
    hit = _qc.get(key)
    if hit is not None and all(x.eq(y) for x, y in zip(hit[0], ab)):
        return hit[1]
    full = list(ab)
    if axioms:
        n = 0
        for t in terms_of(ab[::-1]):
            for a in single(t):
                full.append(abstract(a))
                n += 1
            if n > 250:
                break
        pairs(ab, full)
    lin = [linear(f) for f in full]
    s = z3.Solver()
    s.set('rlimit', rlimit)
    s.set('timeout', int(1500 * SCALE))
    s.add(*lin)
    r = s.check()
    if r != z3.unsat and any(not x.eq(y) for x, y in zip(lin, full)):
        s = z3.Solver()
        s.set('rlimit', rlimit // 4)
        s.set('timeout', int(250 * SCALE))
        s.add(*full)
        r = s.check()
    if r != z3.unsat:
        more = matched(fs, ab)
        if more:
            s = z3.Solver()
            s.set('rlimit', rlimit // 2)
            s.set('timeout', int(600 * SCALE))
            s.add(*lin)
            s.add(*[linear(f) for f in more])
            r = s.check()
    r = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
    _qc[key] = (ab, r)
    return r


_at = {}


def atoms_of(f):
    """the largest uninterpreted applications of a formula, or None when facts about their arguments may matter"""
    hit = _at.get(f.get_id())
    if hit is not None and hit[0].eq(f):
        return hit[1]
    out, seen, todo = set(), set(), [f]
    while todo and out is not None:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            out = None
        elif z3.is_app(t):
            if t.decl().kind() == UN:
                nm = t.decl().name()
                if nm in REDS or nm in SELS or nm in _arr.PERMS or nm in EXTRA or t.eq(PI) or any(
                        a.sort() in (Rl, B) for a in t.children()):
                    out = None
                else:
                    out.add(t.get_id())
                    if t.num_args():            # indices must not be compared with those of other applications
                        out.add(t.decl().name())
            elif t.decl().kind() == z3.Z3_OP_TO_INT:
                out = None
            else:
                todo.extend(t.children())
    _at[f.get_id()] = (f, out)
    return out


def cone(fs):
    """the facts which can bear on the last one, when that is easy to tell"""
    ats = [atoms_of(f) for f in fs]
    if len(fs) < 8 or any(a is None and not z3.is_quantifier(f) for a, f in zip(ats, fs)) or ats[-1] is None:
        return fs
    want = set(a for a in ats[-1] if not isinstance(a, str))
    left = list(range(len(fs) - 1))
    use = [len(fs) - 1]
    again = True
    while again:
        again, rest = False, []
        for i in left:
            a = ats[i]
            if a is None or want & a:
                use.append(i)
                if a is not None:
                    want |= set(x for x in a if not isinstance(x, str))
                    again = True
            else:
                rest.append(i)
        left = rest
    return [fs[i] for i in sorted(use)]


def quick_sat(fs):
    return quick(cone(fs)) != 'unsat'


def quick_valid(pc, z):
    z = norm(z)
    if z3.is_true(z):
        return True
    return quick(list(pc) + [z3.Not(z)], rlimit=600000) == 'unsat'


_il, _ic, _hi = {}, {}, {}


def intlin(f):
    """only linear integer arithmetic (applications count as variables)"""
    h = _il.get(f.get_id())
    if h is not None and h[0].eq(f):
        return h[1]
    r = False
    if z3.is_app(f):
        k = f.decl().kind()
        ch = f.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            r = ch[0].sort() == I and all(intterm(c) for c in ch)
        elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            r = all(intlin(c) for c in ch)
    _il[f.get_id()] = (f, r)
    return r


def intterm(t):
    if z3.is_int_value(t):
        return True
    k = t.decl().kind() if z3.is_app(t) else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return all(intterm(c) for c in t.children())
    if k == z3.Z3_OP_MUL:
        return sum(1 for c in t.children() if not z3.is_int_value(c)) <= 1 and all(intterm(c) for c in t.children())
    return k == UN


def hasite(e):
    h = _hi.get(e.get_id())
    if h is not None and h[0].eq(e):
        return h[1]
    r = z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(hasite(c) for c in e.children()))
    _hi[e.get_id()] = (e, r)
    return r


def conjuncts(f):
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_AND:
        return [x for c in f.children() for x in conjuncts(c)]
    return [f]


def idle(pc, g):
    """the range of the goal's variables is empty by the integer facts of the path"""
    guards = []
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            g = z3.substitute_vars(g.body(), *[witness(g, 'i%d' % i, g.var_sort(i)) for i in reversed(range(g.num_vars()))])
        elif z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
            guards.extend(c for c in conjuncts(g.arg(0)) if intlin(c))
            g = g.arg(1)
        else:
            break
    if not guards:
        return False
    s = z3.SimpleSolver()
    s.set('timeout', int(1000 * SCALE))
    s.add([c for f in pc for c in conjuncts(norm(f)) if intlin(c)])
    s.add(guards)
    return s.check() == z3.unsat


def int_valid(facts, c):
    key = tuple(f.get_id() for f in facts) + (c.get_id(),)
    h = _ic.get(key)
    if h is not None and h[0].eq(c) and all(a.eq(b) for a, b in zip(h[1], facts)):
        return h[2]
    s = z3.SimpleSolver()
    s.set('timeout', int(100 * SCALE))
    s.add(*facts)
    s.add(z3.Not(c))
    r = s.check() == z3.unsat
    _ic[key] = (c, list(facts), r)
    return r


def simp(e, extra=()):
    """index conditions that are settled by the path: choices resolved, true conjuncts dropped"""
    from .rt import RT
    if not hasite(e) and not (e.sort() == B):
        return e
    facts = [c for f in list(RT.pc) + list(extra) for c in conjuncts(f) if intlin(c)][-60:]
    prs, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            if intlin(c):
                if int_valid(facts, c):
                    prs.append((c, z3.BoolVal(True)))
                elif int_valid(facts, z3.Not(c)):
                    prs.append((c, z3.BoolVal(False)))
        todo.extend(t.children())
    if prs:
        e = norm(z3.simplify(z3.substitute(e, *prs)))
    if e.sort() == B and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_AND:
        keep = [c for c in conjuncts(e) if not (intlin(c) and int_valid(facts, c))]
        e = z3.And(keep) if len(keep) > 1 else keep[0] if keep else z3.BoolVal(True)
    elif e.sort() == B and intlin(e) and int_valid(facts, e):
        e = z3.BoolVal(True)
    return e


sym.SIMP[0] = simp


# ------------------------------------------------------------ full discharge
def skolemise(f, pos, out, pref):
    """NNF of f (assumed when pos) as a list of conjuncts: existentials get constants,
    universals stay; disjunctions below keep their quantifiers in place (strengthened by names)"""
    if z3.is_quantifier(f):
        univ = f.is_forall() == pos
        if univ:
            if pos:
                out.append(f)
            else:
                n = f.num_vars()
                vs = [z3.Const('?v%d' % next(sym._cnt), f.var_sort(i)) for i in range(n)]
                body = z3.substitute_vars(f.body(), *reversed(vs))
                out.append(z3.ForAll(vs, z3.Not(body)))
            return
        n = f.num_vars()
        vs = [z3.Const('sk!%s%d' % (pref, next(sym._cnt)), f.var_sort(i)) for i in range(n)]
        body = z3.substitute_vars(f.body(), *reversed(vs))
        skolemise(body, pos, out, pref)
        return
    if z3.is_app(f):
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_NOT:
            skolemise(ch[0], not pos, out, pref)
            return
        if (k == z3.Z3_OP_AND and pos) or (k == z3.Z3_OP_OR and not pos):
            for c in ch:
                skolemise(c, pos, out, pref)
            return
        if k == z3.Z3_OP_IMPLIES and not pos:
            skolemise(ch[0], True, out, pref)
            skolemise(ch[1], False, out, pref)
            return
        if k in (z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE) or \
                (k == z3.Z3_OP_EQ and ch and ch[0].sort() == B):
            out.append(nnf(f, pos, pref))
            return
    out.append(f if pos else z3.Not(f))


def nnf(f, pos, pref):
    """NNF with existentials replaced by constants where they are not below a universal"""
    if z3.is_quantifier(f):
        univ = f.is_forall() == pos
        n = f.num_vars()
        if univ:
            if pos:
                return f
            vs = [z3.Const('?v%d' % next(sym._cnt), f.var_sort(i)) for i in range(n)]
            return z3.ForAll(vs, z3.Not(z3.substitute_vars(f.body(), *reversed(vs))))
        vs = [z3.Const('sk!%s%d' % (pref, next(sym._cnt)), f.var_sort(i)) for i in range(n)]
        return nnf(z3.substitute_vars(f.body(), *reversed(vs)), pos, pref)
    if not has_quant(f):
        return f if pos else z3.Not(f)
    k = f.decl().kind()
    ch = f.children()
    if k == z3.Z3_OP_NOT:
        return nnf(ch[0], not pos, pref)
    if k == z3.Z3_OP_AND or k == z3.Z3_OP_OR:
        r = [nnf(c, pos, pref) for c in ch]
        return z3.And(r) if (k == z3.Z3_OP_AND) == pos else z3.Or(r)
    if k == z3.Z3_OP_IMPLIES:
        return nnf(z3.Or(z3.Not(ch[0]), ch[1]), pos, pref)
    if k == z3.Z3_OP_ITE:
        return nnf(z3.And(z3.Or(z3.Not(ch[0]), ch[1]), z3.Or(ch[0], ch[2])), pos, pref)
    if k == z3.Z3_OP_EQ and ch[0].sort() == B:
        return nnf(z3.And(z3.Or(z3.Not(ch[0]), ch[1]), z3.Or(ch[0], z3.Not(ch[1]))), pos, pref)
    if k == z3.Z3_OP_XOR:
        return nnf(z3.And(z3.Or(ch[0], ch[1]), z3.Or(z3.Not(ch[0]), z3.Not(ch[1]))), pos, pref)
    return f if pos else z3.Not(f)


_hq = {}


def has_quant(f):
    h = _hq.get(f.get_id())
    if h is not None and h[0].eq(f):
        return h[1]
    r = z3.is_quantifier(f) or any(has_quant(c) for c in f.children())
    _hq[f.get_id()] = (f, r)
    return r


def quantifiers(fs):
    out, seen, todo = [], set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            out.append(t)
        else:
            todo.extend(t.children())
    return out


_pats = {}


def patterns(q):
    """[(decl, arg position, offset)] of applications in the body whose argument is a bound variable (+ const)"""
    hit = _pats.get(q.get_id())
    if hit is not None and hit[0].eq(q):
        return hit[1]
    n = q.num_vars()
    pats = [[] for _ in range(n)]
    seen, todo = set(), [q.body()]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if is_uf(t) and t.num_args():
            for p, a in enumerate(t.children()):
                off = 0
                v = a
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD and a.num_args() == 2:
                    x, y = a.children()
                    if z3.is_int_value(x):
                        x, y = y, x
                    if z3.is_var(x) and z3.is_int_value(y):
                        v, off = x, y.as_long()
                if z3.is_var(v):
                    ix = n - 1 - z3.get_var_index(v)
                    if 0 <= ix < n and not any(pt[0].eq(t.decl()) and pt[1:] == (p, off) for pt in pats[ix]):
                        pats[ix].append((t.decl(), p, off))
        todo.extend(t.children())
    _pats[q.get_id()] = (q, pats)
    return pats


def instances(q, ground, skolems, cap=60):
    """instances of a universal formula at matching ground terms"""
    pats = patterns(q)
    n = q.num_vars()
    cands = []
    for ix in range(n):
        srt = q.var_sort(ix)
        cs = {}
        for d, p, off in pats[ix]:
            for t in ground.get(d.name(), ()):
                if t.decl().eq(d):
                    a = t.arg(p)
                    a = norm(a - off) if off else a
                    cs[a.get_id()] = a
        for s in skolems:
            if s.sort() == srt:
                cs[s.get_id()] = s
        cands.append(list(cs.values())[:cap if n == 1 else 14])
    out = []
    for tup in itertools.product(*cands):
        out.append(z3.substitute_vars(q.body(), *reversed(tup)))
        if len(out) > 250:
            break
    return out


def lift(f, names):
    """conditions with quantifiers inside terms become named propositions"""
    if not has_quant(f) or z3.is_quantifier(f):
        return f
    ch = f.children()
    k = f.decl().kind()
    if k == z3.Z3_OP_ITE and f.sort() != B and has_quant(ch[0]):
        c = lift(ch[0], names)
        for d, b in names:
            if d.eq(c):
                break
        else:
            b = z3.Const('lift!%d' % next(sym._cnt), B)
            names.append((c, b))
        return z3.If(b, lift(ch[1], names), lift(ch[2], names))
    return f.decl()(*[lift(c, names) for c in ch])


def shifted(goal):
    """index terms v + c of the goal, for its named indices v"""
    out, seen, todo = {}, set(), [goal]
    while todo and len(out) < 6:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if is_uf(t):
            for a in t.children():
                if a.sort() == I and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD and a.num_args() == 2:
                    x, y = a.children()
                    if z3.is_int_value(y):
                        x, y = y, x
                    if z3.is_int_value(x) and z3.is_const(y) and y.decl().name().startswith(('?', 'sk!')):
                        a = norm(a)
                        out[a.get_id()] = a
        todo.extend(t.children())
    return list(out.values())


def literals(fs):
    """string constants in the formulas"""
    out, seen, todo = [], set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_const(t) and t.decl().kind() == UN and t.decl().name().startswith('lit:'):
            out.append(t)
        elif z3.is_app(t):
            todo.extend(t.children())
    return sorted(out, key=str)


class Problem(object):
    def __init__(self, pc, goal, rounds=3):
        self.base = []
        names = []
        pc = [lift(f, names) for f in pc]
        goal = lift(goal, names)
        for f in pc:
            skolemise(f, True, self.base, 'h')
        skolemise(goal, False, self.base, 'g')
        for c, b in names:
            self.base.append(z3.Or(z3.Not(b), nnf(c, True, 'l')))
            self.base.append(z3.Or(b, nnf(c, False, 'l')))
        self.rounds = rounds
        self.ax = []
        self.shifted = shifted(goal)

    def build(self):
        facts = list(self.base)
        done_single, done_pair, done_q, done_at = set(), set(), set(), set()
        keep = []
        frontier = facts
        skol = {}

        def scan_skolems(fs):
            seen, todo = set(), list(fs)
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_quantifier(t):
                    continue
                if z3.is_const(t) and t.decl().kind() == UN and t.sort() == I:
                    nm = t.decl().name()
                    if nm.startswith(('sk!', 'w!', '?', 'J!', 'K!')):
                        skol[t.get_id()] = t
                todo.extend(t.children())
        scan_skolems(facts)
        for rnd in range(self.rounds):
            ts = terms(facts)
            new = []
            ground = {}
            for t in ts:
                ground.setdefault(t.decl().name(), []).append(t)
            for t in ts:
                if t.get_id() not in done_single:
                    done_single.add(t.get_id())
                    keep.append(t)
                    new.extend(single(t))
            fam = {}
            for t in ts:
                f = family(t)
                if f:
                    fam.setdefault(f, []).append(t)
            for f, l in fam.items():
                l = l[:24]
                for a, b in itertools.combinations(l, 2):
                    k = (a.get_id(), b.get_id())
                    if k not in done_pair:
                        done_pair.add(k)
                        new.extend(pair_axioms(a, b))
            # reductions and selections at index terms
            sk = list(skol.values())[:30]
            idx = {s.get_id(): s for s in sk}
            for t in ts:
                nm = t.decl().name()
                if nm in SELS or nm in _arr.PERMS:
                    if t.sort() == I:
                        idx[t.get_id()] = t
            idxl = list(idx.values())[:40]
            reds = [t for t in ts if t.decl().name() in REDS]
            for t in reds[:30]:
                R = None
                for i in idxl:
                    k = (t.get_id(), i.get_id())
                    if k in done_at:
                        continue
                    done_at.add(k)
                    R = R or Inst(t)
                    if i.eq(t):
                        continue
                    new.extend(red_at(R, i))
            for nm in list(ground):
                if nm in SELS:
                    for t in ground[nm][:3]:
                        for i in idxl:
                            s = SELS[nm]
                            if i.decl().name() in (s.sel.name(),):
                                continue
                            k = (s.name, tuple(x.get_id() for x in t.children()[:-1]), i.get_id())
                            if k in done_at:
                                continue
                            done_at.add(k)
                            new.extend(sel_axioms(s.rank(*(t.children()[:-1] + [i]))))
            for q in quantifiers(facts):
                if not q.is_forall():
                    continue
                for e in instances(q, ground, sk + self.shifted):
                    k = e.get_id()
                    if k not in done_q:
                        done_q.add(k)
                        keep.append(e)
                        # inside a larger formula the instance is implied by the quantified part
                        tmp = []
                        skolemise(e, True, tmp, 'i')
                        new.extend(tmp if any(q.eq(f) for f in facts) else [z3.Implies(q, x) for x in tmp])
            new = [f for f in new if not z3.is_true(f)]
            if not new:
                break
            scan_skolems(new) if rnd == 0 else None
            facts = facts + new
            if len(facts) > 6000:
                break
        lits = literals(facts)
        if len(lits) > 1:
            facts = facts + [z3.Distinct(*lits)]
        self.facts = facts
        return facts


def _check(fs, timeout, quant, seed=0, ematch=False):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000 * SCALE))
    if seed:
        s.set('random_seed', seed)
    if ematch:
        s.set('auto_config', False)
        s.set('mbqi', False)
    seen = set()
    for f in fs:
        g = f if quant else abstract(f)
        if g.get_id() not in seen:
            seen.add(g.get_id())
            s.add(g)
    r = s.check()
    return 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'


def _cvc5(fs, timeout):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 10)
        return 'unsat' if p.stdout.strip().startswith('unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


class Late(Exception):
    pass


def inner_cond(e):
    """an innermost condition of a choice in e"""
    todo, seen = [e], set()
    best = None
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and not hasite(t.arg(0)) and not has_quant(t.arg(0)):
            best = t.arg(0)
        todo.extend(t.children())
    return best


def cases(hyps, g, until, depth=0):
    """the goal by normal form, after deciding the conditions of its choices one by one"""
    if clock() > until:
        raise Late()
    g = z3.simplify(g) if not z3.is_true(g) else g
    if z3.is_true(g):
        return True
    if z3.is_and(g):
        return all(cases(hyps, c, until, depth) for c in g.children())
    if z3.is_implies(g) and not has_quant(g.arg(0)):
        return cases(hyps + [g.arg(0)], g.arg(1), until, depth)
    c = inner_cond(g) if depth < 14 else None
    if c is not None and not has_quant(g):
        for v in (True, False):
            h = c if v else z3.Not(c)
            hs = hyps + [h]
            if refuted(hs):
                continue
            g2 = z3.substitute(g, (c, z3.BoolVal(v)))
            vs = [t for t in terms_all(h) if t.sort() == I and z3.is_const(t) and t.decl().kind() == UN]
            if len(vs) == 2 and refuted(hs + [vs[0] != vs[1]]):
                g2 = z3.substitute(g2, (vs[0], vs[1]))
            if not cases(hs, g2, until, depth + 1):
                return False
        return True
    if hasite(g) or has_quant(g):
        return False
    n = norm(g)
    if z3.is_true(n):
        return True
    return refuted(hyps + [z3.Not(n)])


def refuted(fs):
    s = z3.SimpleSolver()
    s.set('timeout', int(300 * SCALE))
    s.add(*[linear(norm(f)) for f in fs])
    return s.check() == z3.unsat


def by_cases(pc, g, seconds):
    """goals made of choices and polynomials"""
    if z3.is_or(g) and any(z3.is_quantifier(c) for c in g.children()):
        return any(by_cases(pc, c, seconds) for c in g.children() if z3.is_quantifier(c))
    hyps = [f for f in pc if not has_quant(f) and not hasite(f)]
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const('?v%d' % next(sym._cnt), g.var_sort(i)) for i in range(g.num_vars())]
            g = z3.substitute_vars(g.body(), *reversed(vs))
        elif z3.is_implies(g) and not has_quant(g.arg(0)):
            hyps.append(g.arg(0))
            g = g.arg(1)
        else:
            break
    if not hasite(g):
        return False
    try:
        return cases(hyps, g, clock() + seconds)
    except Late:
        return False


_same = {}


def reductions(e):
    """applications of reductions, outermost first"""
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop(0)
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if is_uf(t) and t.decl().name() in REDS:
            out.append(t)
        todo.extend(t.children())
    return out


def prefix(pc, g):
    """hypotheses and quantifier free conclusion"""
    hyps = list(pc)
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const('?v%d' % next(sym._cnt), g.var_sort(i)) for i in range(g.num_vars())]
            g = z3.substitute_vars(g.body(), *reversed(vs))
        elif z3.is_implies(g):
            hyps.append(g.arg(0))
            g = g.arg(1)
        else:
            return hyps, g


def equal_reductions(hyps, a, b, until, depth):
    key = (a.get_id(), b.get_id(), len(hyps), hyps[-1].get_id() if hyps else 0)
    hit = _same.get(key)
    if hit is not None and hit[0].eq(a) and hit[1].eq(b):
        return hit[2]
    A, C = Inst(a), Inst(b)
    r = False
    real = (lambda e: e) if a.sort() == b.sort() else (lambda e: e if e.sort() == Rl else z3.ToReal(e))
    if A.kind == C.kind and (A.kind == 'sum' or (A._g is None) == (C._g is None)):
        x = z3.Const('?x%d' % next(sym._cnt), I)
        same = z3.is_true(norm(A.lo == C.lo)) and z3.is_true(norm(A.hi == C.hi))
        if not same and A.kind == 'sum':
            # the same number of summands, shifted
            ln = norm(A.hi - A.lo == C.hi - C.lo)
            if z3.is_true(ln) or quick_valid(hyps, ln):
                hs = hyps + [z3.And(0 <= x, x < A.hi - A.lo)]
                r = equal(hs, real(A.value(A.lo + x)) == real(C.value(C.lo + x)), until, depth)
        elif same or quick_valid(hyps, z3.And(A.lo == C.lo, A.hi == C.hi)):
            hs = hyps + [z3.And(A.lo <= x, x < A.hi)]
            ba, bb = real(A.body(x)), real(C.body(x))
            zero = z3.IntVal(0) if ba.sort() == I else z3.RealVal(0)
            ga = None if A._g is None else subst(A._g, [(A.x, x)])
            gb = None if C._g is None else subst(C._g, [(C.x, x)])
            if A.kind == 'sum':
                if ga is not None and gb is not None and z3.is_true(norm(ga == gb)):
                    r = equal(hs + [ga], ba == bb, until, depth)
                else:
                    va = ba if ga is None else z3.If(ga, ba, zero)
                    vb = bb if gb is None else z3.If(gb, bb, zero)
                    r = equal(hs, va == vb, until, depth)
            else:
                r = (ga is None or equal(hs, ga == gb, until, depth)) and \
                    equal(hs + ([ga] if ga is not None else []), ba == bb, until, depth)
    _same[key] = (a, b, r)
    return r


def equal(hyps, g, until, depth):
    """an equation whose sides are made of reductions: corresponding reductions are shown equal first"""
    if clock() > until:
        raise Late()
    n = norm(g)
    if z3.is_true(n):
        return True
    if depth > 4:
        return False
    if has_quant(n):
        n = named_conditions(hyps, n, until)
    n = unified(hyps, n, until, depth)
    if z3.is_true(n):
        return True
    if linear_sums(hyps, n, until, depth):
        return True
    if hasite(n) and not has_quant(n):
        try:
            if cases([f for f in hyps if not has_quant(f) and not hasite(f)], n, min(until, clock() + 1)):
                return True
        except Late:
            pass
    for r in (1, 2):
        left = until - clock()
        if left < 0.2:
            raise Late()
        fs = Problem(hyps, n, rounds=r).build()
        if len(fs) < 1500 and _check(fs, min(2.5, left), False) == 'unsat':
            return True
    return False


def linform(e):
    """{application or None: coefficient} of a linear combination of reductions (others in the rest)"""
    out, rest = [], []
    todo = [(e, Fraction(1))]
    while todo:
        t, c = todo.pop()
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            todo.extend((x, c) for x in t.children())
        elif k == z3.Z3_OP_SUB and t.num_args() == 2:
            todo.extend([(t.arg(0), c), (t.arg(1), -c)])
        elif k == z3.Z3_OP_UMINUS:
            todo.append((t.arg(0), -c))
        elif k == z3.Z3_OP_MUL and t.num_args() == 2 and const_of(t.arg(0)) is not None:
            todo.append((t.arg(1), c * const_of(t.arg(0))))
        elif k == z3.Z3_OP_TO_REAL:
            a = t.arg(0)
            if a.decl().kind() == z3.Z3_OP_ADD:
                todo.extend((z3.ToReal(x), c) for x in a.children())
            elif a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2 and const_of(a.arg(0)) is not None:
                todo.append((z3.ToReal(a.arg(1)), c * const_of(a.arg(0))))
            elif is_uf(a) and a.decl().name() in REDS:
                out.append((a, c))
            else:
                rest.append((t, c))
        elif is_uf(t) and t.decl().name() in REDS and REDS[t.decl().name()].kind == 'sum':
            out.append((t, c))
        else:
            rest.append((t, c))
    return out, rest


def unfolded(hyps, n):
    """sums up to i + 1 in terms of those up to i, sums given by the hypotheses"""
    for f in hyps[-12:]:
        if has_quant(f) or not z3.is_app(f):
            continue
        for c in conjuncts(f):
            c = norm(c)
            if c.decl().kind() != z3.Z3_OP_EQ or c.arg(0).sort() == B:
                continue
            sums, rest = linform(c.arg(1) - c.arg(0) if c.arg(0).sort() == c.arg(1).sort() else c.arg(1))
            for a, k in sums:
                if abs(k) == 1 and any(a.eq(t) for t in reductions(n)):
                    real = a.sort() == I and c.arg(0).sort() == Rl
                    v = (c.arg(0) - c.arg(1)) / rv(k) + (z3.ToReal(a) if real else a) if c.arg(0).sort() == Rl else \
                        (c.arg(0) - c.arg(1)) * int(k) + a
                    v = norm(z3.simplify(v))
                    if any(a.eq(t) for t in reductions(v)):
                        continue
                    if v.sort() == Rl and a.sort() == I:
                        continue
                    n = norm(z3.simplify(z3.substitute(n, (a, v))))
                    break
    return n


def linear_sums(hyps, n, until, depth):
    """0 == a linear combination of sums over one range: shown summand by summand"""
    if not z3.is_app(n) or n.decl().kind() != z3.Z3_OP_EQ or n.arg(0).sort() == B:
        return False
    sums, rest = linform(n.arg(1) - n.arg(0))
    if not sums or len(sums) > 6:
        return False
    # upper unfolding
    for a, c in sums:
        for b, _ in sums:
            if a.decl().eq(b.decl()) and not a.eq(b):
                u = unfold(Inst(a))
                if u is not None and reductions(u.arg(1).arg(1)) and any(t.eq(b) for t in reductions(u.arg(1).arg(1))) \
                        and quick_valid(hyps, u.arg(0)):
                    return equal(hyps, norm(z3.simplify(z3.substitute(n, (a, u.arg(1).arg(1))))), until, depth + 1)
    rs = [(Inst(a), c) for a, c in sums]
    lo, hi = rs[0][0].lo, rs[0][0].hi
    for R, c in rs[1:]:
        if not (z3.is_true(norm(R.lo == lo)) and z3.is_true(norm(R.hi == hi))):
            return False
    size = z3.ToReal(hi - lo)
    tot = z3.RealVal(0)
    for t, c in rest:
        tot = tot + rv(c) * (z3.ToReal(t) if t.sort() == I else t)
    m = norm(z3.simplify(tot))
    unit = Fraction(0)
    if not z3.is_true(norm(m == 0)):
        # a multiple of the number of elements
        for k in (1, -1):
            if z3.is_true(norm(m == k * size)):
                unit = Fraction(k)
        if not unit or not quick_valid(hyps, hi >= lo):
            return False
    x = z3.Const('?x%d' % next(sym._cnt), I)
    s = rv(unit)
    for R, c in rs:
        b = R.value(x)
        s = s + rv(c) * (z3.ToReal(b) if b.sort() == I else b)
    return equal(hyps + [z3.And(lo <= x, x < hi)], s == 0, until, depth + 1)


def closed(t):
    if z3.is_var(t):
        return False
    return not z3.is_app(t) or all(closed(c) for c in t.children())


def named_conditions(hyps, n, until):
    """choices on quantified conditions: conditions shown equivalent get one name"""
    conds, seen, todo = [], set(), [n]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and has_quant(t.arg(0)) and not any(c.eq(t.arg(0)) for c in conds):
            if not closed(t.arg(0)):
                return n
            conds.append(t.arg(0))
        todo.extend(t.children())
    if not 1 <= len(conds) <= 4:
        return n
    groups = []
    for c in conds:
        for g in groups:
            def valid(a, b):
                for r in (1, 2):
                    left = until - clock()
                    if left < 0.2:
                        raise Late()
                    fs = Problem(hyps + [a], b, rounds=r).build()
                    if len(fs) < 1500 and _check(fs, min(3, left), False) == 'unsat':
                        return True
                return False
            if valid(c, g[0]) and valid(g[0], c):
                g.append(c)
                break
        else:
            groups.append([c])
    if len(groups) == len(conds):
        return n
    for g in groups:
        q = z3.Const('lift!%d' % next(sym._cnt), B)
        n = z3.substitute(n, *[(c, q) for c in g])
    return norm(n)


def unified(hyps, n, until, depth):
    again = True
    while again:
        again = False
        reds = reductions(n)
        if not 2 <= len(reds) <= 24:
            return n
        cand = []
        for i, a in enumerate(reds):
            for b in reds[i + 1:]:
                ra, rb = REDS[a.decl().name()], REDS[b.decl().name()]
                if ra.kind == rb.kind and a.sort() == b.sort():
                    cand.append((a, b))
                elif ra.kind == rb.kind and ra.kind in ('sum', 'min', 'max'):
                    cand.append((a, b) if a.sort() == Rl else (b, a))
        for a, b in cand[:40]:
            if equal_reductions(hyps, a, b, until, depth + 1):
                n = norm(z3.simplify(z3.substitute(n, (a, b if a.sort() == b.sort() else z3.ToReal(b)))))
                again = True
                break
        if z3.is_true(n):
            return n
    return n


def by_reductions(pc, g, seconds):
    try:
        hyps, g = prefix(pc, g)
        if has_quant(g):
            return False
        until = clock() + seconds
        if z3.is_and(g):
            return all(by_reductions(hyps, c, seconds) for c in g.children())
        n = norm(g)
        if not reductions(n):
            return False
        m = unfolded(hyps, n)
        m = unified(hyps, m, until, 0)
        if z3.is_true(m) or linear_sums(hyps, m, until, 0):
            return True
        if m.eq(n):
            return False
        return equal(hyps, m, until, 4)
    except Late:
        return False


def equations(hyps):
    """rewrite rules (bound variables, guard, left, right) among the hypotheses"""
    out = []

    def rule(vs, guard, c):
        if z3.is_and(c):
            for d in c.children():
                rule(vs, guard, d)
        elif z3.is_implies(c):
            rule(vs, guard + [c.arg(0)], c.arg(1))
        elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EQ and c.arg(0).sort() in (I, Rl):
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if is_uf(a) and a.decl().name() not in REDS and a.num_args() and a.arg(a.num_args() - 1).sort() == I:
                    out.append((vs, guard, a, b))
                    break
    for f in hyps:
        if z3.is_quantifier(f) and f.is_forall():
            vs = [z3.Const('?w%d' % next(sym._cnt), f.var_sort(i)) for i in range(f.num_vars())]
            rule(vs, [], z3.substitute_vars(f.body(), *reversed(vs)))
        elif not has_quant(f):
            rule([], [], f)
    return out


def match(vs, a, t):
    """values of vs with a == t, for arguments that are a variable with a constant added"""
    if not a.decl().eq(t.decl()):
        return None
    val = {}
    for p, q in zip(a.children(), t.children()):
        us = [v for v in vs if any(v.eq(u) for u in terms_all(p))]
        if not us:
            if not z3.is_true(norm(p == q)):
                return None
            continue
        if len(us) > 1 or p.sort() != I:
            return None
        v = us[0]
        w = norm(q - (p - v))
        if any(v.eq(u) for u in terms_all(w)):
            return None
        if str(v) in val and not z3.is_true(norm(val[str(v)][1] == w)):
            return None
        val[str(v)] = (v, w)
    return list(val.values()) if len(val) == len(vs) else None


def terms_all(e):
    out, todo, seen = [], [e], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        out.append(t)
        todo.extend(t.children())
    return out


def by_rewriting(pc, g, seconds):
    """equations of the hypotheses and of recursive functions, then the normal form"""
    try:
        hyps, g = prefix(pc, g)
        if has_quant(g):
            return False
        until = clock() + seconds
        rules = equations(hyps)
        g = norm(g)
        try:
            if rewritten(hyps, rules, g, until, 4):
                return True
        except Late:
            pass
        return by_facts(hyps, rules, g, clock() + seconds)
    except Late:
        return False


def functions(g):
    return [t for t in terms([g]) if z3.is_app(t) and is_uf(t) and t.num_args() and t.decl().name() not in REDS
            and t.arg(t.num_args() - 1).sort() == I]


def once(hyps, rules, t):
    """right hand sides for the term t"""
    for vs, guard, a, b in rules:
        m = match(vs, a, t)
        if m is None:
            continue
        gs = [norm(subst(x, m)) for x in guard]
        if all(z3.is_true(x) for x in gs) or quick_valid(hyps, z3.And(gs)):
            yield subst(b, m)


def by_facts(hyps, rules, g, until):
    """hypotheses rewritten (functions of loops to those of the contract), the goal unfolded once: linear arithmetic"""
    loop = [r for r in rules if r[2].decl().name().startswith('P!')]
    spec = [r for r in rules if not r[2].decl().name().startswith('P!')]
    if not loop:
        return False
    idx = []
    for t in functions(g):
        x = norm(t.arg(t.num_args() - 1))
        if not any(x.eq(y) for y in idx):
            idx.append(x)
    facts = []
    for f in hyps:
        if z3.is_quantifier(f):
            if f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I:
                for x in idx[:4]:
                    b = z3.substitute_vars(f.body(), x)
                    if z3.is_implies(b) and not has_quant(b):
                        facts.append(b)
        elif not has_quant(f):
            facts.append(f)
    out = []
    for f in facts:
        if clock() > until:
            raise Late()
        if z3.is_implies(f) and not quick_valid(hyps, f.arg(0)):
            continue
        f = norm(f.arg(1) if z3.is_implies(f) else f)
        for n in range(3):
            ts = [t for t in functions(f) if t.decl().name().startswith('P!')]
            new = f
            for t in ts:
                for r in once(hyps, loop, t):
                    new = norm(z3.substitute(new, (t, r)))
                    break
            if new.eq(f):
                break
            f = new
        out.append(f)
    if quick(out + [norm(z3.Not(g))]) == 'unsat':
        return True
    g2 = g
    for t in functions(g):
        if t.decl().name().startswith('P!'):
            for r in once(hyps, loop, t):
                g2 = norm(z3.substitute(g2, (t, r)))
                break
    if not g2.eq(g) and hasite(g2) and cases([h for h in hyps if not has_quant(h) and not hasite(h)], g2, until):
        return True
    for t in functions(g):
        for r in once(hyps, spec, t):
            if clock() > until:
                raise Late()
            if quick(out + [norm(z3.Not(z3.substitute(g, (t, r))))]) == 'unsat':
                return True
    return False


def rewritten(hyps, rules, g, until, depth):
    if z3.is_true(g):
        return True
    if depth == 0 or has_quant(g):
        return False
    fs = [t for t in terms([g]) if z3.is_app(t) and is_uf(t) and t.num_args() and t.decl().name() not in REDS
          and t.arg(t.num_args() - 1).sort() == I]
    for own in (False, True):
        for t in fs[:6]:
            if clock() > until:
                raise Late()
            todo = []
            if own and t.decl().name() in EXTRA:
                rs = []
                for f in single(t):
                    rs += [r for r in equations([f]) if r[2].eq(t)]
            else:
                rs = [] if own else rules
            for vs, guard, a, b in rs:
                m = match(vs, a, t)
                if m is None:
                    continue
                gs = [norm(subst(x, m)) for x in guard]
                if gs and not all(z3.is_true(x) for x in gs) and not quick_valid(hyps, z3.And(gs)):
                    continue
                r = norm(z3.substitute(g, (t, subst(b, m))))
                if not r.eq(g) and rewritten(hyps, rules, r, until, depth - 1):
                    return True
    return False


def discharge(pc, goal, budget=30.0, rounds=3):
    """returns (status, back end, seconds)"""
    t0 = clock()
    from .rt import RT
    RT.pc = list(pc)        # terms made from here on hold under the hypotheses of this obligation only
    g = norm(goal)
    if z3.is_true(g):
        return 'proved', 'normal form', clock() - t0
    for p in pc:
        if p.eq(g):
            return 'proved', 'hypothesis', clock() - t0
    try:
        if idle(pc, g):
            return 'proved', 'empty range', clock() - t0
        if g.sort() == B and z3.is_quantifier(g):
            P = Problem(pc, g, rounds=1)
            fs = P.build()
            if _check(fs, min(1.5, budget / 20), False) == 'unsat':
                return 'proved', 'z3', clock() - t0
        loop = any(t.decl().name().startswith('P!') for t in functions(g))
        if loop and by_rewriting(pc, goal, min(6, budget / 5)):
            return 'proved', 'rewriting', clock() - t0
        if by_cases(pc, goal, min(1, budget / 12)):
            return 'proved', 'normal form by cases', clock() - t0
        if by_reductions(pc, goal, min(30, budget * 0.6)):
            return 'proved', 'equal reductions', clock() - t0
        if by_cases(pc, goal, min(4, budget / 6)):
            return 'proved', 'normal form by cases', clock() - t0
        if not loop and by_rewriting(pc, goal, min(6, budget / 5)):
            return 'proved', 'rewriting', clock() - t0
        # light first
        P = Problem(pc, g, rounds=1)
        fs = P.build()
        if _check(fs, min(5, budget / 4), False) == 'unsat':
            return 'proved', 'z3', clock() - t0
        for r in range(2, rounds + 1):
            P = Problem(pc, g, rounds=r)
            fs = P.build()
            if _check(fs, budget / 3, False) == 'unsat':
                return 'proved', 'z3', clock() - t0
        if any(has_quant(f) for f in fs):
            for seed in range(1, 4):
                for em in (False, True):
                    if _check(fs, 2, True, seed, em) == 'unsat':
                        return 'proved', 'z3 (quantifiers)', clock() - t0
        left = budget - (clock() - t0)
        if left > 1 and _check(fs, min(left, budget / 3), True) == 'unsat':
            return 'proved', 'z3 (quantifiers)', clock() - t0
        left = budget - (clock() - t0)
        if left > 2 and _cvc5(fs, left) == 'unsat':
            return 'proved', 'cvc5', clock() - t0
    except z3.Z3Exception as e:
        return 'error', str(e)[:200], clock() - t0
    return 'failed', '', clock() - t0


def _job(args):
    pass


def discharge_all(obs, budget=30.0, workers=8):
    """obligations discharged in forked workers"""
    import multiprocessing
    todo = []
    for i, o in enumerate(obs):
        g = norm(o.goal)
        if z3.is_true(g):
            o.status, o.by, o.time = 'proved', 'normal form', 0.0
        else:
            todo.append(i)
    if not todo:
        return
    ctx = multiprocessing.get_context('fork')
    nw = min(workers, len(todo))
    qs = ctx.Queue()
    nxt = ctx.Value('i', 0)

    def work():
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value += 1
            if k >= len(todo):
                break
            o = obs[todo[k]]
            try:
                r = discharge(o.pc, o.goal, budget)
            except BaseException as e:
                r = ('error', repr(e)[:300], 0.0)
            qs.put((todo[k],) + r)
        qs.put(None)
    ps = [ctx.Process(target=work) for _ in range(nw)]
    for p in ps:
        p.start()
    done = 0
    deadline = clock() + max(60, budget * 3 * (len(todo) / nw + 1))
    while done < nw:
        try:
            r = qs.get(timeout=max(1, deadline - clock()))
        except Exception:
            break
        if r is None:
            done += 1
            continue
        obs[r[0]].status, obs[r[0]].by, obs[r[0]].time = r[1], r[2], r[3]
    for p in ps:
        if p.is_alive():
            p.terminate()
        p.join(5)
    for i in todo:
        if obs[i].status is None:
            obs[i].status, obs[i].by = 'failed', 'no answer'
