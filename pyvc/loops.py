"""Loops with a symbolic number of iterations.

The body is executed once for an arbitrary iteration k from an arbitrary state; the modified locations
are found by a fixed point, and their values before iteration t are solved in closed form (temporaries,
counters, sums, maxima, conditional overwrites, one-row-per-iteration writes, appends and filters).  What
has no closed form becomes a recursively defined function of t (its defining equations are axioms), about
which invariants of the sidecar contract can be proved."""
import itertools
import os
import re
import time
import types
import z3
from fractions import Fraction
from . import sym
from .rt import RT, Ret, BREAK, Outcome, Seg, Poison, Unbound, OObj, Snap, same, vsubst, slot_same, truth, MISSING
from .arr import SArr, memo, dim_eq
from .ops import SStr
from .sym import (SNum, SBool, Unsupported, PathEnd, Choice, num, zb, zi, mknum, mkbool, ite, norm, subst, bvar, fresh,
                  I, Rl, B, isnum, mkred, mksel, EXTRA, topoly, frompoly, padd)

_n = itertools.count()
TRACE = bool(os.environ.get('PYVC_TRACE'))
MAXR = 20


class _P(object):
    pass


POISONED = _P()


def same_ref(a, b):
    if a is None or b is None or a is POISONED or b is POISONED:
        return a is b
    return a == b


# ------------------------------------------------------------------ scanning
_dn = {}


def decls(e):
    """names of the uninterpreted symbols of a term"""
    hit = _dn.get(e.get_id())
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo.extend(t.children())
    _dn[e.get_id()] = (e, out)
    return out


def scan(v, memo_=None):
    """names of the uninterpreted symbols a value depends on"""
    if memo_ is None:
        memo_ = {}
    if isinstance(v, SNum):
        return decls(v.z) if v.c is None else set()
    if isinstance(v, SBool):
        return decls(v.z)
    if isinstance(v, z3.ExprRef):
        return decls(v)
    if isinstance(v, Poison):
        return {'POISON'}
    if v is None or isinstance(v, (str, int, float, bool, Fraction, bytes, type, types.FunctionType, types.ModuleType)):
        return set()
    if id(v) in memo_:
        return set()
    memo_[id(v)] = v
    out = set()
    if isinstance(v, (OObj, SStr)):
        return decls(v.t)
    if isinstance(v, Choice):
        return scan(v.c, memo_) | scan(v.a, memo_) | scan(v.b, memo_)
    if isinstance(v, Seg):
        return scan(v.n, memo_) | scan(v.f(bvar('t')), memo_)
    if isinstance(v, SArr):
        out |= scan(v.get()(tuple(bvar('t') for _ in v.shape)), memo_)
        for d in v.shape:
            out |= scan(d, memo_)
        return out
    if isinstance(v, (list, tuple, set)):
        for x in v:
            out |= scan(x, memo_)
        return out
    if isinstance(v, dict):
        for x in v.values():
            out |= scan(x, memo_)
        return out
    if hasattr(v, '__sym_scan__'):
        for x in v.__sym_scan__():
            out |= scan(x, memo_)
        return out
    if hasattr(v, '__dict__') and type(v).__module__ in RT.modules:
        for x in v.__dict__.values():
            out |= scan(x, memo_)
    return out


def conj(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    return z3.BoolVal(True) if not cs else cs[0] if len(cs) == 1 else z3.And(cs)


# ------------------------------------------------------------------ forms
class Form(object):
    """value of a location before iteration t"""
    def __init__(self, kind, at):
        self.kind, self.at = kind, at


class Loc(object):
    __slots__ = ('part', 'kind', 'oid', 'key', 'obj', 'x0', 'form', 'ph', 'e', 'extras', 'shape', 'dt', 'ref', 'name',
                 'extras_d')

    def __init__(self, kind, oid, key, obj, x0, name):
        self.kind, self.oid, self.key, self.obj, self.x0 = kind, oid, key, obj, x0
        self.form = self.ph = self.e = self.extras = self.ref = self.part = None
        self.name = name


def scalar_sort(*vs):
    """z3 sort for a scalar location, or None"""
    if all(isinstance(v, (bool, SBool)) for v in vs):
        return B
    if all(isnum(v) for v in vs):
        return I if all(num(v).int for v in vs) else Rl
    if all(isinstance(v, SStr) for v in vs):
        from .ops import S
        return S
    return None


def wrap(t):
    if t.sort() == B:
        return mkbool(t)
    if t.sort() in (I, Rl):
        return mknum(t)
    return SStr(t)


def unwrap(v, sort):
    if sort == B:
        return zb(v)
    if sort == I:
        return num(v).z
    if sort == Rl:
        return num(v).real()
    return v.t


def alpha(e):
    """text up to the names of bound variables"""
    names = {}
    return re.sub(r'\?[a-z]+\d+', lambda m: names.setdefault(m.group(), '?%d' % len(names)), norm(e).sexpr())


def flags(e):
    """constant == If(c, constant, constant) as a condition"""
    if not z3.is_app(e):
        return e
    if e.sort() == B and e.decl().kind() == z3.Z3_OP_EQ:
        for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if sym._const(a) is not None and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and \
                    all(sym._const(x) is not None for x in b.children()[1:]):
                c, x, y = b.children()
                x, y = [sym._const(q) == sym._const(a) for q in (x, y)]
                return z3.BoolVal(x) if x == y else c if x else z3.Not(c)
    ch = [flags(c) for c in e.children()] if e.sort() == B else []
    return e.decl()(*ch) if ch and any(not x.eq(y) for x, y in zip(ch, e.children())) else e


def settle(z):
    """the branch of a conditional that the path condition decides"""
    from . import solve
    while z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
        c = z.arg(0)
        if solve.quick_valid(RT.pc, c):
            z = z.arg(1)
        elif solve.quick_valid(RT.pc, z3.Not(c)):
            z = z.arg(2)
        else:
            break
    return z


class Summary(object):
    def __init__(self, rt, lid, body, names, n, elem, cond):
        self.lid, self.body, self.names, self.elem, self.cond = lid, body, names, elem, cond
        self.n = None if n is None else settle(norm(zi(n)))
        self.id = next(_n)
        self.locs = {}
        self.k = bvar('k')
        self.C = None
        self.noexit = None

    # -------------------------------------------------------------- naming
    def cellname(self, o):
        f = self.body
        for nm, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            if c is o:
                return nm
        return None

    # -------------------------------------------------------------- one round
    def put(self, t):
        """the state before iteration t"""
        self.snap.restore()
        if z3.is_int_value(t) and t.as_long() == 0 and False:
            return
        memo_ = {}
        for l in self.locs.values():
            self.set(l, l.form.at(t) if l.form is not None else self.placeholder(l, t))

    def set(self, l, v):
        o = l.obj
        if l.kind == 'slot':
            if type(o) is types.CellType:
                o.cell_contents = v
            elif isinstance(o, dict):
                dict.__setitem__(o, l.key, v)
            elif isinstance(o, type):
                setattr(o, l.key, v)
            elif hasattr(o, '__dict__'):
                o.__dict__[l.key] = v
            else:
                object.__setattr__(o, l.key, v)
        elif l.kind == 'item':
            o[l.key] = v
        elif l.kind == 'arr':
            o.__sym_restore__((v, l.shape, l.dt))
        elif l.kind == 'seg':
            o[:] = [Seg(l.shape, v)]
        elif l.kind == 'grow':
            o[:] = list(l.x0) + v

    def placeholder(self, l, t):
        """an arbitrary value before iteration t"""
        if l.kind == 'grow':
            if l.ph is None:
                l.ph = z3.Function('P!%d!%d' % (self.id, next(_n)), *([x.sort() for x in self.outer] + [I, I]))

            def no(i):
                raise Unsupported('read of a list that is being built')
            return [Seg(mknum(l.ph(*(self.outer + [t]))), no)]
        if l.kind in ('arr', 'seg'):
            if l.ph is None:
                nd = len(l.shape) if l.kind == 'arr' else 1
                s = l.ref
                if s is None:
                    raise Unsupported('array of objects modified in a loop')
                l.ph = z3.Function('P!%d!%d' % (self.id, next(_n)),
                                   *([x.sort() for x in self.outer] + [I] + [I] * nd + [s]))
            if l.kind == 'arr':
                return memo(lambda ix: wrap(l.ph(*(self.outer + [t] + list(ix)))))
            return lambda i: wrap(l.ph(*(self.outer + [t, zi(i)])))
        if l.ref is None or l.ref is POISONED:
            return Poison('%s in %s' % (l.name, self.lid))
        if l.ph is None:
            l.ph = z3.Function('P!%d!%d' % (self.id, next(_n)), *([x.sort() for x in self.outer] + [I, l.ref]))
        return wrap(l.ph(*(self.outer + [t])))

    def iterate(self, final=False, invs=()):
        """execute the body for iteration k; sets .outs (normal) and .exits, and l.e of the locations"""
        RT.obs[self.nobs:] = []
        self.un0 = self.unsolved()
        self.put(self.k)
        self.un0 |= self.unsolved()
        pc0 = len(RT.pc)
        li = list(RT.loop_index)
        RT.loop_index = self.outer + [self.k]
        try:
            RT.pc.append(self.k >= 0)
            if self.n is not None:
                RT.pc.append(self.k < self.n)
            if self.noexit is not None:
                RT.pc.append(self.noexit(self.k))
            if not final and self.has_invs():
                try:
                    invs = [c for n, c in self.invariants(self.k)]
                except Unsupported:
                    invs = []
            for c in invs:
                RT.pc.append(c)
            snap = Snap(RT.roots(self.body))
            base = {i: s for i, s in snap.vals.items()}
            if self.cond is not None:
                def fn():
                    c = truth(self.cond())
                    z = zb(c)
                    if z3.is_false(norm(z)):
                        raise PathEnd()
                    if not z3.is_true(norm(z)):
                        if not RT.feasible(z):
                            raise PathEnd()
                        RT.pc.append(z)
                    return self.body()
            else:
                def fn():
                    return RT.on_item(self.body, self.elem(self.k))
            RT.mat_save = len(RT.mat)
            outs = RT.sub_explore(fn, snap)
            self.exits = [o for o in outs if o.kind != 'normal']
            self.outs = [o for o in outs if o.kind == 'normal']
            self.istart = snap
            self.analyse(snap, base)
        finally:
            del RT.pc[pc0:]
            RT.loop_index = li

    def analyse(self, snap, base):
        """modified locations of the normal outcomes and their new values"""
        self.newlocs = False
        for l in self.locs.values():
            l.e = MISSING
        if not self.outs:
            return
        outs = self.outs
        conds = [RT.cond_of(o) for o in outs]
        for oid, before in base.items():
            obj = snap.objs[oid]
            sts = [o.state[oid] for o in outs]
            if oid not in self.snap.objs:
                if all(_eqs(obj, s, before) for s in sts):
                    continue
                # an object reachable only through a placeholder or made by forms
                if isinstance(obj, list) or isinstance(obj, dict) or hasattr(type(obj), '__sym_state__'):
                    raise Unsupported('object carried between iterations is modified')
                continue
            if isinstance(obj, list):
                self.an_list(oid, obj, before[''], [s[''] for s in sts], conds)
                continue
            if all(_eqs(obj, s, before) for s in sts) and not any(
                    l.oid == oid for l in self.locs.values()):
                continue
            if isinstance(obj, set):
                raise Unsupported('set modified in a loop')
            if isinstance(obj, SArr):
                self.an_arr(oid, obj, before[''], [s[''] for s in sts], conds)
                continue
            if hasattr(type(obj), '__sym_state__'):
                raise Unsupported('%s modified in a loop' % type(obj).__name__)
            keys = list(before)
            for s in sts:
                for x in s:
                    if x not in keys:
                        keys.append(x)
            for key in keys:
                vs = [s.get(key, MISSING) for s in sts]
                b = before.get(key, MISSING)
                k_ = ('slot', oid, key)
                if all(v is b or (v is not MISSING and b is not MISSING and same(v, b)) for v in vs) \
                        and k_ not in self.locs:
                    continue
                if b is MISSING and type(obj) is not types.CellType:
                    raise Unsupported('attribute or key %r made in a loop' % (key,))
                if any(v is MISSING for v in vs) and type(obj) is not types.CellType:
                    raise Unsupported('attribute or key %r removed in a loop' % (key,))
                l = self.locs.get(k_)
                if l is None:
                    nm = self.cellname(obj) or key
                    x0 = self.snap.vals[oid].get(key, MISSING)
                    l = self.locs[k_] = Loc('slot', oid, key, obj, x0, nm)
                    self.newlocs = True
                    d = self.declared(nm)
                    if d is not None:
                        l.form = Form('declared', lambda t, d=d: d(mknum(t)))
                if l.form is not None and l.form.kind == 'declared':
                    l.e = Poison('declared')
                    continue
                l.part = None
                if l.x0 is MISSING:
                    w = [(c, v) for c, v in zip(conds, vs) if v is not MISSING and not isinstance(v, Poison)]
                    if w and len(w) < len(vs):
                        l.part = conj_or([c for c, v in w]), self.merge([c for c, v in w], [v for c, v in w])
                if any(v is MISSING for v in vs):
                    vs = [Poison('unbound %s' % l.name) if v is MISSING else v for v in vs]
                l.e = self.merge(conds, vs)
                self.retype(l, vs)

    def merge(self, conds, vs):
        r = vs[-1]
        for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
            if v is r or isinstance(r, Poison):
                continue
            if isinstance(v, Poison):
                r = v
                continue
            if same(v, r):
                continue
            r = ite(mkbool(c), v, r)
        return r

    def retype(self, l, vs):
        """sort of the placeholder"""
        xs = [v for v in vs]
        if l.x0 is MISSING:
            want = POISONED
        else:
            want = scalar_sort(l.x0, *[v for v in xs if not isinstance(v, Choice)]) \
                if not any(isinstance(v, Poison) for v in xs) else \
                scalar_sort(l.x0, *[v for v in xs if not isinstance(v, (Poison, Choice))])
            if any(isinstance(v, Choice) for v in xs):
                want = None
            if want is None:
                want = POISONED
        if l.ref is None:
            l.ref = want
            if want is not POISONED:
                self.newlocs = True
        elif not same_ref(l.ref, want):
            if l.form is not None and l.form.kind == 'temp':
                return
            num_ = lambda q: q is not POISONED and (q == I or q == Rl)
            if not num_(l.ref) or not num_(want):
                if l.ref is not POISONED:
                    l.ref = POISONED
                    l.ph = l.form = None
                    self.newlocs = True
            elif want == Rl:
                l.ref = want
                l.ph = l.form = None
                self.newlocs = True

    def an_list(self, oid, obj, before, sts, conds):
        gk, sk = ('grow', oid), ('seg', oid)
        x0 = self.snap.vals[oid]['']
        if gk not in self.locs and sk not in self.locs and \
                all(len(s) == len(before) and all(a is b or same(a, b) for a, b in zip(s, before)) for s in sts) \
                and not any(l.kind == 'item' and l.oid == oid for l in self.locs.values()):
            return
        if gk in self.locs or any(len(s) > len(before) for s in sts):
            if not all(len(s) >= len(before) and all(a is b or same(a, b) for a, b in zip(before, s)) for s in sts):
                raise Unsupported('list appended to and changed otherwise in a loop')
            l = self.locs.get(gk)
            if l is None:
                if any(q.oid == oid for q in self.locs.values()):
                    raise Unsupported('list appended to and changed otherwise in a loop')
                l = self.locs[gk] = Loc('grow', oid, '', obj, list(x0), self.listname(obj))
                self.newlocs = True
            l.extras = [s[len(before):] for s in sts]
            l.e = None
            return
        if any(len(s) < len(before) for s in sts):
            raise Unsupported('list shortened in a loop')
        if len(before) == 1 and isinstance(before[0], Seg):
            l = self.locs.get(sk)
            if l is None:
                l = self.locs[sk] = Loc('seg', oid, '', obj, x0[0].f, self.listname(obj))
                l.shape = x0[0].n
                self.newlocs = True
            i = bvar('t')
            es = [s[0].f(i) for s in sts]
            e = self.merge(conds, es)
            want = scalar_sort(x0[0].f(i), e)
            if want is None:
                raise Unsupported('list of objects modified in a loop')
            if not same_ref(l.ref, want) and not same_ref(l.ref, Rl):
                l.ref, l.ph, l.form, self.newlocs = want, None, None, True
            l.e = ((i,), e)
            return
        for j in range(len(before)):
            vs = [s[j] for s in sts]
            k_ = ('item', oid, j)
            if all(v is before[j] or same(v, before[j]) for v in vs) and k_ not in self.locs:
                continue
            if isinstance(before[j], Seg):
                raise Unsupported('list segment modified in a loop')
            l = self.locs.get(k_)
            if l is None:
                l = self.locs[k_] = Loc('item', oid, j, obj, x0[j], '%s[%d]' % (self.listname(obj), j))
                self.newlocs = True
            l.e = self.merge(conds, vs)
            self.retype(l, vs)

    def listname(self, obj):
        f = self.body
        for nm, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try:
                if c.cell_contents is obj:
                    return nm
            except ValueError:
                pass
        return 'list'

    def an_arr(self, oid, obj, before, sts, conds):
        k_ = ('arr', oid)
        x0 = self.snap.vals[oid]['']
        for s in sts:
            if len(s[1]) != len(x0[1]) or not all(dim_eq(a, b) for a, b in zip(s[1], x0[1])):
                raise Unsupported('array shape changes in a loop')
        l = self.locs.get(k_)
        if l is None:
            if x0[0] is None:
                raise Unsupported('view rebased in a loop')
            l = self.locs[k_] = Loc('arr', oid, '', obj, x0[0], self.listname(obj))
            l.shape, l.dt = x0[1], x0[2]
            l.ref = {'f': Rl, 'i': I, 'b': B}.get(l.dt)
            self.newlocs = True
            d = self.declared(l.name)
            if d is not None:
                l.form = Form('declared', lambda t, d=d: memo(d(mknum(t)).get()))
        if l.form is not None and l.form.kind == 'declared':
            l.e = Poison('declared')
            return
        ix = tuple(bvar('t') for _ in l.shape)
        vs = [s[0](ix) for s in sts]
        l.e = (ix, self.merge(conds, vs))

    # -------------------------------------------------------------- solving
    def phs(self):
        return {l.ph.name() for l in self.locs.values() if l.ph is not None and l.form is None}

    def allph(self):
        return {l.ph.name() for l in self.locs.values() if l.ph is not None}

    def unsolved(self):
        s = {l.ph.name() for l in self.locs.values() if l.ph is not None and l.form is None}
        if any(l.form is None and l.ph is None for l in self.locs.values()):
            s.add('POISON')
        return s

    def solve(self, l, force_rec):
        """closed form of a location, or None"""
        if l.e is MISSING:
            return Form('same', lambda t, l=l: l.x0)
        if l.kind == 'grow':
            return self.solve_grow(l)
        if l.kind in ('arr', 'seg'):
            return self.solve_arr(l, force_rec)
        return self.solve_scalar(l, force_rec)

    def at_(self, e, t):
        """the value e at iteration t"""
        return vsubst(e, [(self.k, t)])

    def solve_scalar(self, l, force_rec):
        e, x0, k = l.e, l.x0, self.k
        un = self.un0
        sc = scan(e)
        used = sc & un
        if not used and 'POISON' not in sc:
            if x0 is MISSING:
                def at(t):
                    if z3.is_int_value(t):
                        return Poison('unbound ' + str(l.name)) if t.as_long() == 0 else self.at_(e, zi(num(t) - 1))
                    from . import solve
                    if solve.quick_valid(RT.pc, t >= 1):
                        return self.at_(e, norm(t - 1))
                    if t.eq(k):
                        return Poison('unbound ' + str(l.name))
                    return Choice(mkbool(t >= 1), self.at_(e, norm(t - 1)), Poison('unbound ' + str(l.name)))
                return Form('temp', at)

            def at(t):
                z = norm(t >= 1)
                if z3.is_true(z):
                    return self.at_(e, norm(t - 1))
                if z3.is_false(z):
                    return x0
                if not t.eq(k):
                    from . import solve
                    if solve.quick_valid(RT.pc, z):
                        return self.at_(e, norm(t - 1))
                if l.ref is POISONED and t.eq(k):
                    return Choice(mkbool(z), self.at_(e, norm(t - 1)), x0)
                return ite(mkbool(z), self.at_(e, norm(t - 1)), x0)
            return Form('temp', at)
        if x0 is MISSING:
            part = l.part
            if part is not None and ((scan(part[1]) | decls(part[0])) & un):
                return None
            if part is None and sc & (un - {'POISON'}):
                return None
            if part is None:
                return Form('poison', lambda t: Poison('unbound on some paths: ' + str(l.name)))

            def at(t):
                # written in the iteration before, or else perhaps in an earlier one or not at all
                if t.eq(k) or z3.is_int_value(t):
                    return Poison('unbound on some paths: ' + str(l.name))
                z = norm(t - 1)
                c = norm(flags(part[0]))
                if getattr(self, 'C', None) is not None:
                    # the loop condition held in that iteration
                    C = norm(self.C)
                    c = norm(z3.And([x for x in (c.children() if z3.is_and(c) else [c]) if alpha(x) != alpha(C)]))
                c = norm(z3.And(t >= 1, subst(c, [(k, z)])))
                return Choice(mkbool(c), self.at_(part[1], z), Unbound('unbound on some paths: ' + str(l.name)))
            return Form('partial', at)
        if l.ph is None:
            # an object overwritten on some paths only
            ow = self.overwrite(e)
            if ow is not None and not ((scan(ow[0]) | scan(ow[1])) & un) and 'POISON' not in scan(ow[1]):
                c, v = ow
                return self.last_write(c, v, x0)
            if force_rec:
                raise Unsupported('value carried between iterations: %s in %s' % (l.name, self.lid))
            return None
        P = l.ph(*(self.outer + [k]))
        pn = l.ph.name()
        others = un - {pn}
        ez = unwrap(e, l.ref)
        f = self.closed(ez, P, pn, others, l.ref, x0)
        if f is not None:
            return f
        if force_rec and pn in self.rec and not (others & decls(ez) - self.rec):
            return self.rec_form(l)
        return None

    def closed(self, ez, P, pn, others, sort, x0):
        k = self.k
        if sort == B:
            ez = norm(ez)
            if z3.is_or(ez) and any(c.eq(P) for c in ez.children()):
                c = [x for x in ez.children() if not x.eq(P)]
                c = z3.Or(c) if len(c) > 1 else c[0]
                if not (decls(c) & (others | {pn})):
                    return Form('or', lambda t: sym.lor(x0, self.ex(c, t)))
            if z3.is_and(ez) and any(c.eq(P) for c in ez.children()):
                c = [x for x in ez.children() if not x.eq(P)]
                c = z3.And(c) if len(c) > 1 else c[0]
                if not (decls(c) & (others | {pn})):
                    return Form('and', lambda t: sym.land(x0, sym.not_(self.ex(z3.Not(c), t))))
        if sort in (I, Rl):
            d = self.delta(ez, P, pn)
            if d is not None and not (decls(d) & (others | {pn})):
                if str(k) not in decls(d):
                    dd = mknum(d)
                    return Form('count', lambda t: num(x0) + dd * mknum(t))
                return Form('sum', lambda t: num(x0) + mkred('sum', 0, t, lambda j: mknum(subst(d, [(k, j)]))))
            mm = self.maxmin(ez, P, pn)
            if mm is not None and not (decls(mm[1]) & (others | {pn})):
                kind, c = mm
                f2 = sym.smax if kind == 'max' else sym.smin

                def at(t):
                    r = mkred(kind, 0, t, lambda j: mknum(subst(c, [(k, j)])))
                    return ite(mkbool(norm(t >= 1)), f2(num(x0), r), num(x0))
                return Form(kind, at)
        ow = self.overwrite_z(ez, P)
        if ow is not None:
            c, v = ow
            if pn in decls(c) and z3.is_and(norm(c)):
                # written only where it differs
                d = norm(z3.Not(P == v))
                c = norm(z3.And([x for x in norm(c).children() if not norm(x).eq(d)]))
            if not ((decls(c) | decls(v)) & (others | {pn})):
                return self.last_write(mkbool(c), wrap(v), x0)
        return None

    def ex(self, c, t):
        q = bvar('q')
        b = norm(subst(c, [(self.k, q)]))
        if z3.is_false(b):
            return False
        if str(q) not in decls(b):
            return mkbool(norm(z3.And(t >= 1, b)))
        return mkbool(z3.Exists([q], z3.And(0 <= q, q < t, b)))

    def last_write(self, c, v, x0):
        """v(j) for the last j < t with c(j), x0 when there is none"""
        k = self.k
        cz = zb(c)
        if str(k) not in scan(v):
            return Form('overwrite', lambda t: ite(self.ex(cz, t), v, x0))

        def at(t):
            m = mkred('max', 0, t, lambda j: mknum(j), lambda j: subst(cz, [(k, j)]))
            return ite(self.ex(cz, t), self.at_(v, zi(m)), x0)
        return Form('last', at)

    def delta(self, e, P, pn):
        """e - P when P is added to in e, else None"""
        if pn not in decls(e):
            return None
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.children()
            if pn in decls(c):
                return None
            da, db = self.delta(a, P, pn), self.delta(b, P, pn)
            if da is None or db is None:
                return None
            return z3.If(c, da, db)
        p = dict(topoly(e))
        key = ((sym.atom(P), 1),)
        if p.get(key) == 1:
            p.pop(key)
            r = frompoly(p, e.sort())
            if pn not in decls(r):
                return r
            # conditionals inside the rest
        if p.pop(key, None) is None:
            # P may be inside a conditional summand
            ites = [m for m in p if len(m) == 1 and m[0][1] == 1 and p[m] == 1 and pn in decls(sym.ATOM[m[0][0]])]
            if len(ites) == 1:
                a = sym.ATOM[ites[0][0][0]]
                d = self.delta(a, P, pn) if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE else None
                if d is not None:
                    p.pop(ites[0])
                    r = frompoly(p, e.sort())
                    if pn not in decls(r):
                        return r + d
        return None

    def maxmin(self, e, P, pn):
        e = norm(e)
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):
            return None
        c, a, b = e.children()
        if a.eq(P) and pn not in decls(b):
            v, keep = b, c
        elif b.eq(P) and pn not in decls(a):
            v, keep = a, z3.Not(c)
        else:
            return None
        keep = norm(keep)
        if any(keep.eq(norm(x)) for x in (P >= v, P > v)):
            return 'max', v
        if any(keep.eq(norm(x)) for x in (P <= v, P < v)):
            return 'min', v
        return None

    def overwrite_z(self, e, P):
        """(c, v) with e = If(c, v, P)"""
        if e.eq(P):
            return z3.BoolVal(False), e
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):
            return z3.BoolVal(True), e
        c, a, b = e.children()
        ra, rb = self.overwrite_z(a, P), self.overwrite_z(b, P)
        cc = norm(z3.Or(z3.And(c, ra[0]), z3.And(z3.Not(c), rb[0])))
        if z3.is_false(norm(ra[0])):
            return cc, rb[1]
        if z3.is_false(norm(rb[0])):
            return cc, ra[1]
        return cc, z3.If(c, ra[1], rb[1])

    def overwrite(self, e):
        """(c, v) with e = v when c and the old value (a Poison) otherwise"""
        if isinstance(e, Poison):
            return False, None
        if not isinstance(e, Choice):
            return True, e
        ra, rb = self.overwrite(e.a), self.overwrite(e.b)
        cc = sym.lor(sym.land(e.c, ra[0]), sym.land(sym.not_(e.c), rb[0]))
        if ra[0] is False:
            return cc, rb[1]
        if rb[0] is False:
            return cc, ra[1]
        return cc, ite(e.c, ra[1], rb[1])

    def rec_form(self, l):
        """the recursively defined function itself"""
        k, outer = self.k, list(self.outer)
        x0, ph, sort = l.x0, l.ph, l.ref
        if l.kind in ('arr', 'seg'):
            ix, e = l.e
            ez = unwrap(e, sort)
            nd = len(ix)

            def ax(*args):
                o, t, ii = list(args[:len(outer)]), args[len(outer)], list(args[len(outer) + 1:])
                base = unwrap(vsubst(x0(tuple(ii)) if l.kind == 'arr' else x0(ii[0]), list(zip(outer, o))), sort)
                me = ph(*args)
                st = subst(ez, list(zip(outer, o)) + [(k, t - 1)] + list(zip(ix, ii)))
                return [z3.Implies(t == 0, me == base), z3.Implies(t >= 1, me == st)]
            EXTRA[ph.name()] = ax
            if l.kind == 'arr':
                return Form('rec', lambda t: memo(lambda jx: wrap(ph(*(outer + [t] + list(jx))))))
            return Form('rec', lambda t: (lambda i: wrap(ph(*(outer + [t, zi(i)])))))
        ez = unwrap(l.e, sort)
        xz = unwrap(x0, sort)

        def ax(*args):
            o, t = list(args[:-1]), args[-1]
            me = ph(*args)
            return [z3.Implies(t == 0, me == subst(xz, list(zip(outer, o)))),
                    z3.Implies(t >= 1, me == subst(ez, list(zip(outer, o)) + [(k, t - 1)]))]
        EXTRA[ph.name()] = ax
        return Form('rec', lambda t: wrap(ph(*(outer + [t]))))

    # ---- arrays
    def solve_arr(self, l, force_rec):
        k, un = self.k, self.un0
        ix, e = l.e
        if l.ph is None:
            raise Unsupported('array of objects modified in a loop')
        pn = l.ph.name()
        others = un - {pn}
        P = l.ph(*(self.outer + [k] + list(ix)))
        ez = unwrap(e, l.ref)
        if l.kind == 'arr':
            x0 = l.x0
        else:
            x0 = lambda jx: l.x0(jx[0])
        mk = (lambda g: (lambda t: memo(lambda jx: g(t, jx)))) if l.kind == 'arr' else \
            (lambda g: (lambda t: (lambda i: g(t, (zi(i),)))))
        dz = decls(ez)
        if ez.eq(P):
            return Form('same', mk(lambda t, jx: x0(jx)))
        if not (dz & (others | {pn})):
            def g(t, jx):
                v = wrap(subst(ez, [(k, norm(t - 1))] + list(zip(ix, jx))))
                return ite(mkbool(norm(t >= 1)), v, x0(jx))
            return Form('temp', mk(g))
        if not (dz & others):
            # accumulation per element
            if l.ref in (I, Rl):
                d = self.delta(ez, P, pn)
                if d is not None:
                    def g(t, jx):
                        dd = lambda j: mknum(subst(d, [(k, j)] + list(zip(ix, jx))))
                        return num(x0(jx)) + mkred('sum', 0, t, dd)
                    return Form('sum', mk(g))
            c, v = self.overwrite_z(ez, P)
            c = norm(c)
            if pn not in decls(c):
                # each element written in at most one iteration
                gi = self.row_of(c, ix)
                if gi is not None:
                    w = self.own(ez, pn, gi, ix, l, x0)
                    if w is not None:
                        def g(t, jx):
                            it = norm(subst(gi, list(zip(ix, jx))))
                            cond = norm(z3.And(0 <= it, it < t))
                            if z3.is_false(cond):
                                return x0(jx)
                            return ite(mkbool(cond), wrap(w(it, jx)), x0(jx))
                        return Form('row', mk(g))
                    if force_rec:
                        f = self.row_rec(l, ez, pn, gi, ix, x0)
                        if f is not None:
                            return Form('rowrec', mk(f))
                if pn not in decls(v):
                    if str(k) not in decls(v):
                        def g(t, jx):
                            pr = list(zip(ix, jx))
                            return ite(self.ex(subst(c, pr), t), wrap(subst(v, pr)), x0(jx))
                        return Form('overwrite', mk(g))

                    def g(t, jx):
                        pr = list(zip(ix, jx))
                        cz, vz = subst(c, pr), subst(v, pr)
                        m = mkred('max', 0, t, lambda j: mknum(j), lambda j: subst(cz, [(k, j)]))
                        return ite(self.ex(cz, t), wrap(subst(vz, [(k, zi(m))])), x0(jx))
                    return Form('last', mk(g))
        if force_rec and not (others - self.rec):
            return self.rec_form(l)
        return None

    def row_of(self, c, ix):
        """the only iteration in which an element can be written: a term in ix, or None"""
        k = self.k
        def eqs(c):
            if z3.is_and(c):
                for x in c.children():
                    r = eqs(x)
                    if r is not None:
                        return r
                return None
            if z3.is_or(c):
                rs = [eqs(x) for x in c.children()]
                if all(r is not None for r in rs) and all(r.eq(rs[0]) for r in rs):
                    return rs[0]
                return None
            if z3.is_eq(c) and c.arg(0).sort() == I:
                p = padd(topoly(c.arg(0)), topoly(c.arg(1)), -1)
                key = ((sym.atom(k), 1),)
                s = p.pop(key, None)
                if s in (1, -1):
                    r = norm(frompoly({m: -v / s for m, v in p.items()}, I))
                    if str(k) not in decls(r) and any(str(x) in decls(r) for x in ix):
                        return r
            return None
        return eqs(norm(c))

    def own(self, ez, pn, gi, ix, l, x0):
        """value written at iteration it to element jx, own earlier contents replaced by the initial ones"""
        k = self.k
        apps = []
        seen, todo = set(), [ez]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                if pn in decls(t):
                    return None
                continue
            if z3.is_app(t):
                if t.decl().name() == pn:
                    apps.append(t)
                todo.extend(t.children())
        no = len(self.outer)
        from . import solve
        for a in apps:
            args = a.children()
            if not args[no].eq(k):
                return None
            b = args[no + 1:]
            gb = subst(gi, list(zip(ix, b)))
            # at iteration k = gi(ix) element b is still unwritten when gi(b) >= k
            if not solve.quick_valid(RT.pc, z3.Implies(k == gi, gb >= k)):
                return None

        def w(it, jx):
            pr = list(zip(ix, jx)) + [(k, it)]
            r = ez
            reps = []
            for a in apps:
                b = [norm(subst(x, pr)) for x in a.children()[no + 1:]]
                reps.append((a, unwrap(x0(tuple(b)), l.ref)))
            # innermost placeholders have no placeholders in their indices (checked by pn in index)
            fr = [(a, z3.Const('own!%d' % n, a.sort())) for n, (a, _) in enumerate(reps)]
            r = z3.substitute(r, *fr) if fr else r
            r = subst(r, pr)
            r = z3.substitute(r, *[(c, v) for (a, c), (_, v) in zip(fr, reps)]) if fr else r
            return r
        for a in apps:
            if any(pn in decls(x) for x in a.children()[no + 1:]):
                return None
        return w

    def row_rec(self, l, ez, pn, gi, ix, x0):
        """each element is written once, from elements written before: a recursively defined function of
        the element"""
        k, outer = self.k, list(self.outer)
        apps = []
        seen, todo = set(), [ez]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                if pn in decls(t):
                    return None
                continue
            if z3.is_app(t):
                if t.decl().name() == pn:
                    apps.append(t)
                todo.extend(t.children())
        no = len(outer)
        for a in apps:
            if not a.arg(no).eq(k) or any(pn in decls(x) for x in a.children()[no + 1:]):
                return None
        R = z3.Function('R!%d!%d' % (self.id, next(_n)), *([x.sort() for x in outer] + [I] * len(ix) + [l.ref]))

        def before(it, b, o):
            # contents of element b before iteration it
            g = norm(subst(gi, list(zip(ix, b))))
            c = norm(z3.And(0 <= g, g < it))
            x = unwrap(vsubst(x0(tuple(b)), list(zip(outer, o))), l.ref)
            return x if z3.is_false(c) else z3.If(c, R(*(o + list(b))), x)

        def ax(*args):
            o, jx = list(args[:no]), list(args[no:])
            it = norm(subst(gi, list(zip(ix, jx))))
            pr = list(zip(outer, o)) + list(zip(ix, jx)) + [(k, it)]
            fr = [(a, z3.Const('own!%d' % n, a.sort())) for n, a in enumerate(apps)]
            r = z3.substitute(ez, *fr) if fr else ez
            r = subst(r, pr)
            reps = [(c, before(it, [norm(subst(x, pr)) for x in a.children()[no + 1:]], o)) for a, c in fr]
            r = z3.substitute(r, *reps) if reps else r
            return [z3.Implies(it >= 0, R(*args) == r)]
        EXTRA[R.name()] = ax
        return lambda t, jx: wrap(before(t, list(jx), outer))

    # ---- growing lists
    def solve_grow(self, l):
        k, un = self.k, self.un0
        conds = [RT.cond_of(o) for o in self.outs]
        un = un - {l.ph.name()} if l.ph is not None else un
        ns = sorted(set(len(x) for x in l.extras))
        items = [x for ex in l.extras for x in ex]
        dep = set()
        for c, ex in zip(conds, l.extras):
            for x in ex:
                dep |= scan(x)
        if len(ns) > 1:
            for c in conds:
                dep |= decls(c)
        if dep & un:
            return None
        if any(isinstance(x, Seg) for x in items):
            return self.grow_segs(l, conds)
        if len(ns) == 1:
            m = ns[0]
            if m == 0:
                return Form('grow', lambda t: [])
            its = [self.merge(conds, [ex[j] for ex in l.extras]) for j in range(m)]
            if set().union(*[scan(x) for x in its]) & un:
                return None
            if m == 1:
                it = its[0]
                return Form('grow', lambda t: [Seg(mknum(t), lambda i: self.at_(it, zi(i)))])

            def f(i):
                i = zi(i)
                r = self.at_(its[-1], norm(i / m))
                for j in range(m - 2, -1, -1):
                    r = ite(mkbool(norm(i % m == j)), self.at_(its[j], norm(i / m)), r)
                return r
            return Form('grow', lambda t: [Seg(mknum(t) * m, f)])
        if ns == [0, 1]:
            cz = [c for c, ex in zip(conds, l.extras) if ex]
            its = [ex[0] for ex in l.extras if ex]
            cond = z3.Or(cz) if len(cz) > 1 else cz[0]
            it = self.merge(cz, its)

            def at(t):
                s = mksel(t, lambda i: subst(cond, [(k, i)]))
                return [Seg(s.count(), lambda i: self.at_(it, s.sel(i)), s)]
            return Form('filter', at)
        raise Unsupported('different numbers of items appended in a loop')

    def grow_segs(self, l, conds):
        # every iteration appends a segment of the same constant-in-k length
        if any(len(x) != 1 or not isinstance(x[0], Seg) for x in l.extras):
            raise Unsupported('segments appended in a loop')
        if len(l.extras) != 1:
            raise Unsupported('segments appended on different paths')
        s = l.extras[0][0]
        if str(self.k) in scan(s.n):
            raise Unsupported('segments of varying length appended in a loop')
        n = zi(s.n)
        f = s.f

        def g(i):
            i = zi(i)
            return vsubst(f(norm(i % n)), [(self.k, norm(i / n))])
        return Form('grow', lambda t: [Seg(mknum(norm(t * n)), g)])

    # -------------------------------------------------------------- driver
    def run(self):
        self.outer = list(RT.loop_index)
        self.nobs = len(RT.obs)
        self.rec = set()
        npc = len(RT.pc)
        self.snap = Snap(RT.roots(self.body))
        nmat = len(RT.mat)
        quiet = RT.quiet
        rounds = 0
        RT.quiet += 1
        try:
            force_rec = False
            while True:
                rounds += 1
                if rounds > MAXR + len(self.locs):
                    raise Unsupported('loop not solved: ' + self.lid)
                t0 = time.time()
                self.iterate()
                if TRACE:
                    print('  loop %s round %d: %d paths %d exits %.1fs locs %s' % (
                        self.lid, rounds, len(self.outs), len(self.exits), time.time() - t0,
                        ['%s=%s' % (l.name, l.form.kind if l.form else None) for l in self.locs.values()]), flush=True)
                if self.guesses():
                    continue
                if self.newlocs:
                    continue
                if all(l.form is not None for l in self.locs.values()):
                    break
                prog = False
                if force_rec:
                    # one that depends on itself only, or else all of them
                    un = self.unsolved()
                    me = [l.ph.name() for l in self.locs.values() if l.form is None and l.ph is not None and
                          l.kind == 'slot' and scan(l.e) & self.un0 == {l.ph.name()}]
                    self.rec = set(me[:1]) or un
                for l in list(self.locs.values()):
                    if l.form is None:
                        f = self.solve(l, force_rec)
                        if f is not None:
                            l.form = f
                            prog = True
                if not prog:
                    if force_rec:
                        raise Unsupported('loop not solved: %s (%s)' % (
                            self.lid, ', '.join(str(l.name) for l in self.locs.values() if l.form is None)))
                    force_rec = True
                elif force_rec:
                    force_rec = False
            self.refresh_rec()
        finally:
            RT.quiet = quiet
            self.snap.restore()
            del RT.obs[self.nobs:]
        # exits
        X = None
        if self.exits:
            X = conj_or([RT.cond_of(o) for o in self.exits])
            k = self.k
            if not (self.cond is not None and not self.outs):
                def noexit(t):
                    j = bvar('q')
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.Not(subst(X, [(k, j)]))))
                self.noexit = noexit
        if self.cond is not None:
            self.bound_while()
        invs = self.prove_base()
        # final round: records the obligations of the body
        self.final(invs)
        return self.leave(X)

    def guesses(self):
        """a number changed by a constant in the first round is taken to be a counter, until a later round
        contradicts that; True when something was contradicted"""
        wrong = False
        for l in self.locs.values():
            if l.kind != 'slot' or type(l.obj) is not types.CellType:
                continue
            if l.extras == 'guess':
                z = norm(unwrap(num(l.x0), l.ref) + unwrap(num(l.extras_d), l.ref) * (self.k + 1)) if isnum(l.e) else None
                if z is None or not norm(unwrap(l.e, l.ref)).eq(z):
                    l.extras, wrong = 'no', True
            elif l.extras is None and l.form is None and l.ph is None:
                l.extras = 'no'
                if l.ref is not None and l.ref is not POISONED and l.ref == I and isnum(l.x0) and isnum(l.e) and num(l.x0).int and num(l.e).int:
                    d = norm((num(l.e) - num(l.x0)).z)
                    if z3.is_int_value(d) and d.as_long() != 0:
                        l.extras, l.extras_d = 'guess', d.as_long()
                        l.form = Form('count', lambda t, l=l: num(l.x0) + num(l.extras_d) * mknum(t))
        if wrong:
            for l in self.locs.values():
                if l.extras == 'guess':
                    l.extras = 'no'
                l.form = l.ph = None
        return wrong

    def refresh_rec(self):
        """the defining equations of the recursive functions refer to the final forms"""
        for l in self.locs.values():
            if l.form is not None and l.form.kind == 'rec':
                l.form = self.rec_form(l)

    def bound_while(self):
        self.put(self.k)
        pc0 = len(RT.pc)
        li = RT.loop_index
        RT.loop_index = self.outer + [self.k]
        try:
            RT.pc.append(self.k >= 0)
            snap = Snap(RT.roots(self.body))
            RT.quiet += 1
            try:
                outs = RT.sub_explore(lambda: zb(truth(self.cond())), snap)
            finally:
                RT.quiet -= 1
        finally:
            del RT.pc[pc0:]
            RT.loop_index = li
            self.snap.restore()
        if any(o.kind != 'normal' for o in outs):
            raise Unsupported('loop condition may fail')
        C = norm(flags(conj_or([conj(o.conds + [o.val]) for o in outs])))
        self.C = C
        if z3.is_true(C):
            self.n = None
            return
        n = self.linear(C)
        if n is None:
            nm = fresh('N')
            k = self.k
            j = bvar('q')
            self.n = nm
            RT.pc.append(nm >= 0)
            RT.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nm), subst(C, [(k, j)]))))
            self.notC = z3.Not(subst(C, [(k, nm)]))
            self.lastflag(C, nm)
            if self.terminates(C):
                if not self.exits:
                    RT.pc.append(self.notC)
                return
            a = 'the loop %s terminates' % self.lid
            if a not in RT.assumed:
                RT.assumed.append(a)
            if not self.exits:
                RT.pc.append(self.notC)
        else:
            self.n = n

    def lastflag(self, C, n):
        """a loop that runs while no iteration before has set a flag: the last one has set it"""
        k = self.k
        C = norm(C)
        if z3.is_quantifier(C) and C.is_forall():
            q = bvar('q')
            b = norm(z3.Not(z3.substitute_vars(C.body(), q))) if C.num_vars() == 1 and C.var_sort(0) == I else None
        elif z3.is_not(C) and z3.is_quantifier(C.arg(0)) and C.arg(0).is_exists() and C.arg(0).num_vars() == 1:
            q = bvar('q')
            b = z3.substitute_vars(C.arg(0).body(), q)
        else:
            return
        if b is None or not z3.is_and(b):
            return
        below = [c for c in b.children() if str(k) in decls(c)]
        if len(below) == 1 and norm(below[0]).eq(norm(q < k)):
            from . import solve
            f = norm(z3.And([subst(c, [(q, norm(n - 1))]) for c in b.children() if not c.eq(below[0])]))
            # and none before it
            RT.pc.append(z3.ForAll([q], norm(z3.Implies(z3.And(0 <= q, q < n - 1), z3.Not(z3.And(
                [c for c in b.children() if not c.eq(below[0])]))))))
            RT.pc.append(f if solve.quick_valid(RT.pc + [self.notC], n >= 1) else z3.Implies(n >= 1, f))

    def terminates(self, C):
        """proof that the variant of the sidecar decreases"""
        f = getattr(RT.v, 'measure', None) if getattr(RT, 'v', None) is not None else None
        if f is None:
            return False
        k = self.k
        ms = []
        try:
            for t in (k, norm(k + 1)):
                self.put(t)
                ms.append(num(f(State(self, t))))
        except Unsupported:
            return False
        finally:
            self.snap.restore()
        pc0 = len(RT.pc)
        j = bvar('q')
        RT.pc.append(k >= 0)
        RT.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), subst(C, [(k, j)]))))
        RT.pc.append(C)
        RT.prove('variant of %s is not negative' % self.lid, zb(ms[0] >= 0), kind='variant', then_assume=False)
        RT.prove('variant of %s decreases' % self.lid, zb(ms[1] < ms[0]), kind='variant', then_assume=False)
        del RT.pc[pc0:]
        return True

    def linear(self, C):
        """number of iterations for a condition that is linear in k"""
        k = self.k
        if not z3.is_app(C) or C.num_args() != 2:
            return None
        d = C.decl().kind()
        if d not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        a, b = C.children()
        if d in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        strict = d in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        p = padd(topoly(a), topoly(b), -1)      # p (<|<=) 0
        key = ((sym.atom(k), 1),)
        s = p.pop(key, None)
        if s is None or s <= 0:
            return None
        r = mknum(frompoly({m: -v / s for m, v in p.items()}, Rl))      # k (<|<=) r
        if (decls(r.z) if r.c is None else set()) & ({str(k)} | self.allph()):
            return None
        n = sym.ceil(r) if strict else sym.floor(r) + 1
        from . import solve
        if not solve.quick_valid(RT.pc, zb(n >= 0)):
            n = ite(n >= 0, n, 0)
        return norm(zi(n))

    # ---- sidecar invariants
    def invariants(self, t, note=False):
        """formulas of the sidecar invariants in the present state"""
        st = State(self, t)
        out = []
        for f in self.sidecar(self.lid):
            out.extend(f(st))
            RT.v.fits[f] = True
        if self.cond is not None:
            for f in self.sidecar('while'):
                try:
                    out.extend(f(st))
                    if note:
                        RT.v.fits[f] = True
                except Unsupported:
                    if note:
                        RT.v.fits.setdefault(f, False)
        return [(n, zb(c) if not isinstance(c, z3.ExprRef) else c) for n, c in out]

    def declared(self, name):
        d = getattr(getattr(RT, 'v', None), 'forms', {})
        return d.get((self.lid, name)) or (d.get(('while', name)) if self.cond is not None else None)

    def prove_forms(self, t, what):
        """the declared values of the variables are those in the present state"""
        for l in self.locs.values():
            if l.form is None or l.form.kind != 'declared':
                continue
            now = self.snap_value(l)
            if now is MISSING:
                continue
            v = l.form.at(t)
            if l.kind == 'arr':
                v = SArr(l.shape, v, l.dt)
            for n, c in same_value(now, v):
                RT.prove('value of %s in %s%s (%s)' % (l.name, self.lid, n, what), c, kind='inv', then_assume=False)

    def snap_value(self, l):
        o = l.obj
        if l.kind == 'arr':
            return o
        if type(o) is types.CellType:
            try:
                return o.cell_contents
            except ValueError:
                return MISSING
        if isinstance(o, dict):
            return o.get(l.key, MISSING)
        return getattr(o, l.key, MISSING)

    def has_forms(self):
        return any(l.form is not None and l.form.kind == 'declared' for l in self.locs.values())

    def has_invs(self):
        return bool(self.sidecar(self.lid) or (self.cond is not None and self.sidecar('while')))

    def sidecar(self, lid):
        return getattr(RT.v, 'invs', {}).get(lid, []) if getattr(RT, 'v', None) is not None else []

    def prove_base(self):
        if self.has_forms():
            self.snap.restore()
            self.prove_forms(z3.IntVal(0), 'start')
        if not self.has_invs():
            return []
        self.put(z3.IntVal(0))
        self.snap.restore()
        for n, c in self.invariants(z3.IntVal(0), True):
            RT.prove('invariant of %s: %s (start)' % (self.lid, n), c, kind='inv', then_assume=False)
        self.put(self.k)
        r = [c for n, c in self.invariants(self.k)]
        self.snap.restore()
        return r

    def final(self, invs):
        self.nobs = len(RT.obs)
        pc0 = len(RT.pc)
        locs = dict(self.locs)
        self.iterate(final=True, invs=invs)
        if self.newlocs or set(locs) != set(self.locs):
            raise Unsupported('loop analysis unstable: ' + self.lid)
        if invs or self.has_forms():
            li = RT.loop_index
            for o in self.outs:
                pc0 = len(RT.pc)
                RT.loop_index = self.outer + [self.k]
                RT.pc.append(self.k >= 0)
                if self.n is not None:
                    RT.pc.append(self.k < self.n)
                RT.pc.extend(invs)
                RT.pc.extend(o.conds)
                RT.put_state(self.istart, o.state)
                self.prove_forms(norm(self.k + 1), 'step')
                for n, c in self.invariants(norm(self.k + 1)):
                    RT.prove('invariant of %s: %s (step)' % (self.lid, n), c, kind='inv', then_assume=False)
                del RT.pc[pc0:]
                self.istart.restore()
            RT.loop_index = li
            j = bvar('q')
            rng = z3.And(0 <= j, j <= self.n) if self.n is not None else 0 <= j
            from . import solve
            for c in invs:
                RT.pc.append(z3.ForAll([j], z3.Implies(rng, subst(c, [(self.k, j)]))))
                if self.n is not None:
                    e = norm(subst(c, [(self.k, self.n)]))
                    RT.pc.append(e if solve.quick_valid(RT.pc, self.n >= 0) else z3.Implies(self.n >= 0, e))
        self.snap.restore()

    def one_exit(self, snap, outs):
        """exits by exceptions of one class as one exit"""
        e = outs[0].val
        if any(o.kind != 'exc' or type(o.val) is not type(e) or len(o.val.args) != len(e.args) or
               list(o.val.__dict__) != list(e.__dict__) for o in outs):
            if TRACE:
                print('  exits differ:', [(o.kind, type(o.val).__name__, len(getattr(o.val, 'args', ())), list(getattr(o.val, '__dict__', ()))) for o in outs])
            return outs
        conds = [RT.cond_of(o) for o in outs]

        def both(vs):
            r = vs[-1]
            for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                r = v if same(v, r) else ite(mkbool(c), v, r)
            return r
        try:
            st = RT.merge(snap, outs)
            args = tuple(both([o.val.args[i] for o in outs]) for i in range(len(e.args)))
            ats = dict((a, both([o.val.__dict__[a] for o in outs])) for a in e.__dict__)
        except Unsupported as x:
            if TRACE:
                print('  exits not merged:', x)
            return outs
        o = Outcome()
        o.kind, o.val, o.state = 'exc', type(e).__new__(type(e)), st
        o.val.args = args
        o.val.__dict__.update(ats)
        o.conds = [z3.Or(conds)]
        return [o]

    def leave(self, X):
        k = self.k
        n = self.n
        if self.cond is not None and n is not None and getattr(RT, 'v', None) is not None:
            RT.v.whiles.append((self.lid, mknum(n)))
        if X is not None:
            q = bvar('q')
            Xq = subst(X, [(k, q)])
            if n is None:
                some = True
            else:
                rng = z3.And(0 <= q, q < n)
                if str(k) not in decls(X):
                    ex = norm(z3.And(n >= 1, X))
                else:
                    ex = z3.Exists([q], z3.And(rng, Xq))
                some = RT.decide(ex)
            if some:
                K = fresh('K')
                RT.pc.append(K >= 0)
                if n is not None:
                    RT.pc.append(K < n)
                else:
                    a = 'the loop %s terminates' % self.lid
                    if a not in RT.assumed:
                        RT.assumed.append(a)
                known = [subst(X, [(k, K)]), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < K), z3.Not(Xq)))]
                many = len(self.exits) > 4
                if not many:
                    RT.pc.extend(known)
                self.put(K)
                snap = Snap(RT.roots(self.body))
                RT.quiet += 1
                try:
                    if self.cond is not None:
                        def fn():
                            c = truth(self.cond())
                            RT.pc.append(zb(c))
                            return self.body()
                    else:
                        def fn():
                            return RT.on_item(self.body, self.elem(K))
                    outs = RT.sub_explore(fn, snap)
                finally:
                    RT.quiet -= 1
                outs = [o for o in outs if o.kind != 'normal']
                if not outs:
                    raise PathEnd()
                if many:
                    RT.pc.extend(known)
                    outs = self.one_exit(snap, outs)
                for i, o in enumerate(outs):
                    if i == len(outs) - 1 or RT.decide(RT.cond_of(o)):
                        RT.pc.extend(o.conds)
                        RT.put_state(snap, o.state)
                        return RT.finish(o)
            elif str(k) in decls(X):
                RT.pc.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Not(Xq))))
        if n is None:
            raise Unsupported('endless loop')
        if self.C is not None and hasattr(self, 'notC') and self.exits:
            RT.pc.append(self.notC)
        if not self.outs and not z3.is_int_value(n):
            # no iteration ends normally: the loop ends only when there is none
            RT.pc.append(n <= 0)
            self.snap.restore()
            return None
        self.put(n)
        return None


class State(object):
    """what an invariant sees"""
    def __init__(self, s, t):
        self.s, self.t = s, t
        self.k = mknum(t)
        self.N = mknum(s.n) if s.n is not None else None

    def __getitem__(self, name):
        f = self.s.body
        for nm, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            if nm == name:
                try:
                    return c.cell_contents
                except ValueError:
                    raise Unsupported('variable %s is not bound' % name)
        raise Unsupported('no variable %s in loop %s' % (name, self.s.lid))

    def counter(self, name, start=0):
        """the variable that counts the iterations from start: its own in a while loop, implied in a for loop"""
        return self[name] if self.N is None else self.k + start


def same_value(a, b):
    """[(what, formula)]: the value a is the value b"""
    from .arr import SArr
    a, b = sym.force(a), sym.force(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        if not isinstance(a, SArr):
            a = SArr((1,), lambda ix, a=a: a, b.dt)
        if not isinstance(b, SArr):
            b = SArr((1,), lambda ix, b=b: b, a.dt)
        if len(a.shape) != len(b.shape):
            raise Unsupported('declared value of another shape')
        out = []
        vs = tuple(z3.Int('?u%d' % next(sym._cnt)) for _ in a.shape)
        for x, y in zip(a.shape, b.shape):
            out.append((': shape', zb(num(x) == num(y))))
        f, g = a.get(), b.get()
        small = [isinstance(d, int) and d <= 8 for d in b.shape]
        for c in itertools.product(*[[z3.IntVal(i) for i in range(d)] if q else [v] for v, d, q in zip(vs, b.shape, small)]):
            free = [(v, d) for v, d, q in zip(vs, b.shape, small) if not q]
            e = zb(num(f(tuple(c))) == num(g(tuple(c))))
            if len(free) == 1:
                # the last one apart
                v, d = free[0][0], zi(num(free[0][1]) - 1)
                out.append((': last item', z3.Implies(d >= 0, norm(z3.substitute(e, (v, d))))))
                out.append((': items', z3.ForAll([v], z3.Implies(z3.And(0 <= v, v < d), e))))
                continue
            if free:
                e = z3.ForAll([v for v, d in free], z3.Implies(z3.And([z3.And(0 <= v, v < zi(d)) for v, d in free]), e))
            out.append((': items', e))
        return out
    return [('', zb(num(a) == num(b)))]


def conj_or(cs):
    return cs[0] if len(cs) == 1 else z3.Or(cs)


def _eqs(obj, a, b):
    if a is b:
        return True
    if list(a.keys()) != list(b.keys()):
        return False
    return all(slot_same(obj, a[k], b[k]) for k in a)
