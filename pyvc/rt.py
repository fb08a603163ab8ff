"""Run time of the instrumented code: path exploration, state, loops, obligations."""
import types
import z3
from fractions import Fraction
from . import sym
from .sym import (SNum, SBool, Unsupported, PathEnd, Choice, num, zb, zi, mknum, mkbool, ite, land, lor,
                  norm, subst, bvar, fresh, I, Rl, B, free_bindables, isnum, force, not_, mkred, mksel)


class Ret(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class _Break(object):
    def __repr__(self):
        return 'BREAK'


BREAK = _Break()


class Seg(object):
    """n consecutive list items, the i-th of which is f(i) (i: z3 Int).  Lives inside Python lists."""
    __slots__ = ('n', 'f', 'src')

    def __init__(self, n, f, src=None):
        self.n, self.f, self.src = num(n), f, src

    def __getattr__(self, a):
        raise Unsupported('list segment used as an item (.%s)' % a)

    def _no(self, *a):
        raise Unsupported('list segment used as an item')
    __eq__ = __lt__ = __add__ = __bool__ = __len__ = __iter__ = _no
    __hash__ = object.__hash__


class Bundle(object):
    """consecutive items which one iteration of a model's sequence stands for"""
    def __init__(self, items):
        self.items = items


class Poison(object):
    def __init__(self, why):
        object.__setattr__(self, '_why', why)

    def _no(self, *a, **k):
        raise Unsupported('value carried between loop iterations: ' + object.__getattribute__(self, '_why'))
    __getattr__ = __call__ = __bool__ = __len__ = __iter__ = __eq__ = __add__ = __radd__ = __sub__ = _no
    __mul__ = __getitem__ = __lt__ = __setattr__ = __str__ = __format__ = _no
    __hash__ = object.__hash__


class Unbound(Poison):
    """A variable perhaps without a value: reading it needs a proof that the path is impossible."""
    def _no(self, *a, **k):
        from . import solve
        if solve.discharge(list(RT.pc), z3.BoolVal(False), 10)[0] == 'proved':
            raise PathEnd()
        raise Unsupported('value carried between loop iterations: ' + object.__getattribute__(self, '_why'))
    __getattr__ = __call__ = __bool__ = __len__ = __iter__ = __eq__ = __add__ = __radd__ = __sub__ = _no
    __mul__ = __getitem__ = __lt__ = __setattr__ = __str__ = __format__ = _no
    __hash__ = object.__hash__


class OObj(object):
    """An opaque object identified by a term; attributes are functions of the term."""
    __slots__ = ('t', 'kind', 'ats')

    def __init__(self, t, kind='Obj', ats=None):
        object.__setattr__(self, 't', t)
        object.__setattr__(self, 'kind', kind)
        object.__setattr__(self, 'ats', ats or {})

    def __getattr__(self, a):
        if a in self.ats:
            return self.ats[a](self.t)
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('attribute %s of an opaque %s' % (a, self.kind))

    def __setattr__(self, a, v):
        raise Unsupported('attribute assignment to an opaque ' + self.kind)

    def __eq__(self, o):
        if isinstance(o, OObj):
            if self.t.sort() != o.t.sort():
                return False
            return mkbool(self.t == o.t) if not self.t.eq(o.t) else True
        if o is None or isinstance(o, (str, int, bool)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        return True

    def __sym_ite__(self, c, o):
        if isinstance(o, OObj) and o.t.sort() == self.t.sort():
            return OObj(z3.If(zb(c), self.t, o.t), self.kind, self.ats)
        return Choice(c, self, o)

    def __sym_subst__(self, pairs):
        return OObj(subst(self.t, pairs), self.kind, self.ats)

    def __str__(self):
        return '<%s>' % self.kind

    def __format__(self, s):
        return '<%s>' % self.kind

    def __call__(self, *a, **k):
        if '()' in self.ats:
            return self.ats['()'](self.t, *a, **k)
        raise Unsupported('call of an opaque ' + self.kind)


class Ob(object):
    __slots__ = ('name', 'fn', 'pc', 'goal', 'loc', 'kind', 'status', 'by', 'time', 'model', 'hints')

    def __init__(self, name, fn, pc, goal, loc, kind, hints=()):
        self.name, self.fn, self.pc, self.goal, self.loc, self.kind = name, fn, pc, goal, loc, kind
        self.status = self.by = self.model = None
        self.time = 0.0
        self.hints = hints


def same(a, b):
    """identical values (syntactically)"""
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    if isinstance(a, (bool, int, float, Fraction, SNum)) and isinstance(b, (bool, int, float, Fraction, SNum)):
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        a, b = num(a), num(b)
        if a.int != b.int:
            return False
        if a.c is not None or b.c is not None:
            return a.c == b.c
        return a.z.eq(b.z)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.z.eq(b.z)
    if isinstance(a, OObj) and isinstance(b, OObj):
        return a.t.eq(b.t)
    if type(a) is type(b) and isinstance(a, (str, tuple)) and not (isinstance(a, tuple)):
        return a == b
    if isinstance(a, tuple) and type(a) is type(b) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, '__sym_same__'):
        return a.__sym_same__(b)
    return False


def vsubst(v, pairs, memo=None):
    """substitute in a value (deep)"""
    if memo is None:
        memo = {}
    if v is None or isinstance(v, (str, bytes, int, float, bool, Fraction, type, types.FunctionType,
                                   types.ModuleType, types.MethodType, types.BuiltinFunctionType)):
        return v
    if isinstance(v, SNum):
        if v.c is not None:
            return v
        return mknum(subst(v.z, pairs))
    if isinstance(v, SBool):
        return mkbool(subst(v.z, pairs))
    if isinstance(v, z3.ExprRef):
        return subst(v, pairs)
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, Choice):
        r = Choice(vsubst(v.c, pairs, memo), vsubst(v.a, pairs, memo), vsubst(v.b, pairs, memo))
    elif isinstance(v, Seg):
        f = v.f
        r = Seg(vsubst(v.n, pairs), lambda i: vsubst_at(f, i, pairs), v.src)
    elif hasattr(v, '__sym_subst__'):
        r = v.__sym_subst__(pairs)
    elif isinstance(v, tuple):
        xs = [vsubst(x, pairs, memo) for x in v]
        if all(x is y for x, y in zip(xs, v)):
            r = v
        else:
            r = type(v)(*xs) if hasattr(v, '_fields') else tuple(xs)
    elif isinstance(v, list):
        r = type(v)(vsubst(x, pairs, memo) for x in v)
    elif isinstance(v, dict):
        r = type(v)((k, vsubst(x, pairs, memo)) for k, x in v.items())
    elif isinstance(v, set):
        r = set(vsubst(x, pairs, memo) for x in v)
    elif hasattr(v, '__dict__') and type(v).__module__ in RT.modules:
        nd = {k: vsubst(x, pairs, memo) for k, x in v.__dict__.items()}
        if all(nd[k] is v.__dict__[k] for k in nd):
            r = v
        else:
            r = object.__new__(type(v))
            r.__dict__.update(nd)
    else:
        r = v
    memo[id(v)] = (v, r)
    return r


def vsubst_at(f, i, pairs):
    """(f with the substitution applied)(i), where i must not be captured"""
    t = bvar('t')
    v = vsubst(f(t), pairs)
    return vsubst(v, [(t, zi(i))])


# ------------------------------------------------------------------- state
class Snap(object):
    """The mutable state reachable from the roots."""
    def __init__(self, roots):
        self.objs = {}
        self.vals = {}
        todo = list(roots)
        top = set(id(r) for r in todo)
        while todo:
            o = todo.pop()
            if o is None or isinstance(o, (str, int, float, bool, SNum, SBool, OObj, z3.ExprRef, bytes, Poison)):
                continue
            i = id(o)
            if i in self.objs:
                continue
            s = self.slots(o)
            if s is None:
                if type(o) is types.FunctionType and (o.__module__ or '').startswith('pyvc') and id(o) not in top:
                    continue
                kids = self.through(o)
                if kids:
                    self.objs[i] = o
                    todo.extend(kids)
                continue
            self.objs[i] = o
            self.vals[i] = s
            if hasattr(type(o), '__sym_state__'):
                if hasattr(o, '__sym_kids__'):
                    todo.extend(o.__sym_kids__())
            elif isinstance(o, (list, set)):
                todo.extend(s[''])
            else:
                todo.extend(s.values())

    @staticmethod
    def slots(o):
        t = type(o)
        if t is types.CellType:
            try:
                return {'': o.cell_contents}
            except ValueError:
                return {}
        if t is list:
            return {'': list(o)}
        if isinstance(o, list):
            return {'': list(o)}
        if isinstance(o, dict):
            return dict(o)
        if isinstance(o, set):
            return {'': set(o)}
        if hasattr(t, '__sym_state__'):
            return {'': o.__sym_state__()}
        if t.__module__ in RT.modules and hasattr(o, '__dict__') and not isinstance(o, type):
            return dict(o.__dict__)
        if isinstance(o, type) and o.__module__ in RT.modules:
            return {k: v for k, v in o.__dict__.items()
                    if not k.startswith('__') and k not in ('_abc_impl',)}
        if t.__module__ in RT.modules and hasattr(t, '__slots__'):
            return {k: getattr(o, k) for k in _slots_of(t) if hasattr(o, k)}
        return None

    @staticmethod
    def through(o):
        if isinstance(o, (tuple, frozenset)):
            return list(o)
        if isinstance(o, types.FunctionType):
            return list(o.__closure__ or ()) + list(o.__defaults__ or ()) + list(o.__dict__.values())
        if isinstance(o, types.MethodType):
            return [o.__self__, o.__func__]
        if isinstance(o, (staticmethod, classmethod)):
            return [o.__func__]
        if isinstance(o, property):
            return [o.fget, o.fset]
        if isinstance(o, Choice):
            return [o.a, o.b]
        if hasattr(type(o), '__sym_through__'):
            return o.__sym_through__()
        return None

    @staticmethod
    def put(o, vals):
        t = type(o)
        if t is types.CellType:
            if '' in vals:
                o.cell_contents = vals['']
            else:
                try:
                    del o.cell_contents
                except ValueError:
                    pass
        elif isinstance(o, list):
            o[:] = vals['']
        elif isinstance(o, dict):
            if list(o.keys()) != list(vals.keys()) or any(o[k] is not vals[k] for k in vals):
                o.clear()
                o.update(vals)
        elif isinstance(o, set):
            o.clear()
            o.update(vals[''])
        elif hasattr(t, '__sym_state__'):
            o.__sym_restore__(vals[''])
        elif isinstance(o, type):
            for k in list(o.__dict__):
                if not k.startswith('__') and k not in vals and k != '_abc_impl':
                    delattr(o, k)
            for k, v in vals.items():
                if o.__dict__.get(k) is not v:
                    setattr(o, k, v)
        elif hasattr(o, '__dict__'):
            o.__dict__.clear()
            o.__dict__.update(vals)
        else:
            for k in _slots_of(t):
                if k in vals:
                    object.__setattr__(o, k, vals[k])

    def restore(self):
        for i, v in self.vals.items():
            self.put(self.objs[i], v)

    def now(self):
        """current slots of the same objects"""
        return {i: self.slots(self.objs[i]) for i in self.vals}


def _slots_of(t):
    out = []
    for c in t.__mro__:
        s = c.__dict__.get('__slots__', ())
        out.extend([s] if isinstance(s, str) else s)
    return out


def slot_same(o, a, b):
    if isinstance(o, (list,)):
        return len(a) == len(b) and all(x is y or same(x, y) for x, y in zip(a, b))
    if isinstance(o, set):
        return a == b
    if hasattr(type(o), '__sym_state__'):
        return a is b or (isinstance(a, tuple) and len(a) == len(b) and all(x is y for x, y in zip(a, b)))
    return a is b or same(a, b)


MISSING = object()


class Outcome(object):
    __slots__ = ('conds', 'kind', 'val', 'state')


# ------------------------------------------------------------------ run time
class Runtime(object):
    def __init__(self):
        self.modules = {}
        self.reset()
        self.contracts = {}
        self.sidecar = []

    def reset(self):
        self.pc = []
        self.obs = []
        self.loop_index = []
        self.frames = []        # decision frames: [prefix, pos, taken]
        self.fn = ''
        self.extra_roots = []
        self.paths = 0
        self.assumed = []
        self.nfeas = 0
        self.quiet = 0
        self.roots_fixed = []
        self.cell_stack = []
        self.excs = []
        self.mat = []
        self.fresh = []       # items made for the loop that takes them
        self.derived = {}
        self.growing = set()

    # ---- decisions
    def replaying(self):
        return self.quiet or any(f[1] < len(f[0]) for f in self.frames)

    def assume(self, z):
        z = zb(z) if not isinstance(z, z3.ExprRef) else z
        z = z3.simplify(z) if False else z
        if z3.is_true(z):
            return
        self.pc.append(z)

    def decide(self, z):
        z = norm(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        nz = norm(z3.Not(z))
        for p in self.pc:
            if p.eq(z):
                return True
            if p.eq(nz):
                return False
        if not self.frames:
            raise Unsupported('branching outside an exploration')
        fr = self.frames[-1]
        if fr[1] < len(fr[0]):
            v, two = fr[0][fr[1]]
            fr[1] += 1
            if two:
                self.pc.append(z if v else nz)
            return v
        ct = self.feasible(z)
        cf = self.feasible(nz) if ct else True
        if ct and cf:
            v, two = True, True
            fr[2].append(fr[0] + [(False, True)])
        else:
            v, two = ct, False
        fr[0] = fr[0] + [(v, two)]
        fr[1] += 1
        if two:
            self.pc.append(z if v else nz)
            self.paths += 1
            if self.paths > 12000:
                raise Unsupported('too many paths')
        return v

    def feasible(self, z):
        from . import solve
        self.nfeas += 1
        return solve.quick_sat(self.pc + [z])

    # ---- list items that exist only as a function of their index must not be modified
    def materialise(self, seg, v):
        if isinstance(v, (dict, list)) or (type(v).__module__ in self.modules and hasattr(v, '__dict__')):
            self.mat.append((v, Snap.slots(v)))
        return v

    def on_item(self, body, el):
        """run a loop body on an item of a symbolic list, which it must not modify unless it is nobody else's"""
        if isinstance(el, Bundle):
            for x in el.items:
                r = self.step(lambda: body(x), body)
                if r is BREAK or isinstance(r, Ret):
                    return r
            return None
        todo, kept = [el], []
        while todo:
            v = todo.pop()
            if isinstance(v, (tuple, list)):
                todo.extend(v)
            if isinstance(v, (dict, list)) or (type(v).__module__ in self.modules and hasattr(v, '__dict__')):
                if not any(v is x for x in self.fresh):
                    kept.append((v, Snap.slots(v)))
        try:
            r = body(el)
        except PathEnd:
            raise
        except Exception:
            self.same_items(kept)
            raise
        self.same_items(kept)
        return r

    def same_items(self, kept):
        for v, s in kept:
            n = Snap.slots(v)
            if list(n) != list(s) or any(not slot_same(v, n[k], s[k]) for k in s):
                raise Unsupported('an item of a symbolic list is modified')

    def check_materialised(self):
        for v, s in self.mat:
            n = Snap.slots(v)
            if list(n) != list(s) or any(not slot_same(v, n[k], s[k]) for k in s):
                raise Unsupported('an item of a symbolic list is modified')

    # ---- obligations
    def prove(self, name, goal, loc='', kind='post', hints=(), then_assume=True):
        g = zb(goal) if not isinstance(goal, z3.ExprRef) else goal
        if not self.replaying():
            from . import solve
            if solve.hasite(g):
                g = solve.simp(norm(g))
            self.obs.append(Ob(name, self.fn, list(self.pc), g, loc, kind, hints))
        if then_assume and not z3.is_true(g):
            g = type(g)(g.as_ast(), g.ctx)          # this occurrence is marked, not the formula
            self.pc.append(g)
            self.derived[id(g)] = g

    def fact(self, g):
        """a postcondition of a callee: holds here, is no condition for getting here"""
        g = zb(g) if not isinstance(g, z3.ExprRef) else g
        g = type(g)(g.as_ast(), g.ctx)
        self.pc.append(g)
        self.derived[id(g)] = g

    def require(self, name, goal, exc=None):
        """safety obligation: the code must not fail here"""
        g = zb(goal)
        if z3.is_true(norm(g)):
            return
        self.prove(name, g, kind='safety')

    def division(self, b):
        pass

    def event_zero_division(self):
        raise ZeroDivisionError('division by zero')

    # ---- exploration
    def explore(self, fn):
        """run fn on every path (top level)"""
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            self.pc = []
            self.loop_index = []
            self.frames = [[prefix, 0, work]]
            self.cell_stack = []
            self.roots_fixed = []
            self.mat = []
            self.fresh = []
            try:
                fn()
                self.check_materialised()
            except PathEnd:
                pass
            n += 1
            if n > 600:
                raise Unsupported('too many paths')
        self.frames = []
        return n

    def sub_explore(self, fn, snap):
        """all outcomes of fn from the present state; leaves the state at the snapshot"""
        outs = []
        work = [[]]
        base = len(self.pc)
        li = list(self.loop_index)
        first = True
        while work:
            prefix = work.pop()
            if not first:
                snap.restore()
            first = False
            self.loop_index = list(li)
            self.frames.append([prefix, 0, work])
            o = Outcome()
            try:
                try:
                    r = fn()
                    o.kind, o.val = 'normal', None
                    if r is BREAK:
                        o.kind = 'break'
                    elif isinstance(r, Ret):
                        o.kind, o.val = 'ret', r
                    else:
                        o.val = r
                except PathEnd:
                    o.kind = 'end'
                except Exception as e:
                    o.kind, o.val = 'exc', e
            finally:
                self.frames.pop()
            o.conds = self.pc[base:]
            del self.pc[base:]
            o.state = snap.now()
            if o.kind != 'end':
                outs.append(o)
            if len(outs) > 400:
                raise Unsupported('too many paths in a loop body')
        self.loop_index = li
        snap.restore()
        return outs

    def roots(self, body):
        r = []
        if body is not None:
            r.append(body)
        for m in self.modules.values():
            r.extend(v for k, v in m.__dict__.items()
                     if not k.startswith('__') and not isinstance(v, types.ModuleType))
        return r + list(self.extra_roots) + list(self.cell_stack)

    def is_derived(self, f):
        return id(f) in self.derived

    def cond_of(self, o):
        """when this outcome is taken; obligations proved on the way follow from that and are no part of it"""
        cs = [f for f in o.conds if not self.is_derived(f)]
        return z3.And(cs) if len(cs) != 1 else cs[0]

    def merge(self, snap, outs):
        """merge the states of several outcomes; returns {oid: slots} or raises Unsupported"""
        conds = [self.cond_of(o) for o in outs]
        merged = {}
        for i, before in snap.vals.items():
            obj = snap.objs[i]
            sts = [o.state[i] for o in outs]
            if all(_slots_eq(obj, s, sts[0]) for s in sts[1:]):
                merged[i] = sts[0]
                continue
            keys = list(sts[0])
            for s in sts[1:]:
                for k in s:
                    if k not in keys:
                        keys.append(k)
            m = {}
            for k in keys:
                vs = [s.get(k, MISSING) for s in sts]
                if any(v is MISSING for v in vs):
                    if type(obj) is types.CellType:      # unbound on some paths
                        v = [x for x in vs if x is not MISSING]
                        if len(v) == 1:
                            m[k] = v[0]
                            continue
                    raise Unsupported('slot %r exists on some paths only' % (k,))
                if isinstance(obj, list):
                    m[k] = merge_lists(conds, vs)
                elif isinstance(obj, set):
                    raise Unsupported('sets differ between paths')
                elif hasattr(type(obj), '__sym_state__'):
                    m[k] = obj.__sym_merge__(conds, vs)
                else:
                    r = vs[-1]
                    for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                        r = v if slot_same(obj, v, r) else ite(mkbool(c), v, r)
                    m[k] = r
            merged[i] = m
        return merged

    def put_state(self, snap, st):
        for i, v in st.items():
            snap.put(snap.objs[i], v)

    # ---- one iteration / block with merging
    def step(self, fn, body):
        """run fn from the present state, merging the normal outcomes.  Returns as fn or raises."""
        snap = Snap(self.roots(body))
        outs = self.sub_explore(fn, snap)
        if not outs:
            raise PathEnd()
        if len(outs) == 1:
            o = outs[0]
            self.pc.extend(o.conds)
            self.put_state(snap, o.state)
            return self.finish(o)
        bad = [o for o in outs if o.kind != 'normal']
        good = [o for o in outs if o.kind == 'normal']
        for o in bad:
            if self.decide(self.cond_of(o)):
                self.pc.extend(o.conds)
                self.put_state(snap, o.state)
                return self.finish(o)
        if not good:
            raise PathEnd()
        try:
            m = self.merge(snap, good)
        except Unsupported:
            for o in good[:-1]:
                if self.decide(self.cond_of(o)):
                    self.pc.extend(o.conds)
                    self.put_state(snap, o.state)
                    return None
            self.pc.extend(good[-1].conds)
            self.put_state(snap, good[-1].state)
            return None
        self.pc.append(z3.Or([self.cond_of(o) for o in good]) if len(good) > 1 else self.cond_of(good[0]))
        for o in good:
            self.pc.extend(z3.Implies(self.cond_of(o), f) for f in o.conds if self.is_derived(f))
        self.put_state(snap, m)
        return None

    def finish(self, o):
        if o.kind == 'exc':
            raise o.val
        if o.kind == 'break':
            return BREAK
        if o.kind == 'ret':
            return o.val
        return None

    # ---- loops
    def parts(self, it):
        """('c', item) and ('s', n, f) parts of an iterable"""
        it = force(it)
        if hasattr(it, '__sym_parts__'):
            return it.__sym_parts__()
        if isinstance(it, (list, tuple)):
            return [('s', x.n, x.f) if isinstance(x, Seg) else ('c', x) for x in it]
        if isinstance(it, dict):
            return [('c', x) for x in list(it)]
        if isinstance(it, (set, frozenset)):
            return [('c', x) for x in sorted(it, key=repr)]
        if isinstance(it, (str, range, map, zip, enumerate, type({}.keys()), type({}.values()), type({}.items()))) \
                or hasattr(it, '__next__') or hasattr(it, '__iter__'):
            if isinstance(it, (SNum, SBool)):
                raise TypeError('number is not iterable')
            return [('c', x) for x in it]
        raise TypeError('%r object is not iterable' % type(it).__name__)

    def for_(self, lid, it, body, names, line):
        ps = self.parts(it)
        res = None
        for p in ps:
            if p[0] == 'c':
                r = self.step(lambda: body(p[1]), body)
            else:
                n = num(p[1])
                if n.c is not None and n.c <= 6:
                    r = None
                    for j in range(int(n.c)):
                        r = self.step(lambda: self.on_item(body, p[2](z3.IntVal(j))), body)
                        if r is BREAK or isinstance(r, Ret):
                            break
                else:
                    r = self.summarise(lid, body, names, n=n, elem=p[2])
            if r is BREAK or isinstance(r, Ret):
                return r
        return None

    def while_(self, lid, cond, body, names, line):
        count = 0
        while True:
            c = cond()
            if not isinstance(c, (SBool, bool)):
                c = truth(c)
            if isinstance(c, SBool):
                z = norm(c.z)
                if z3.is_true(z) or z3.is_false(z):
                    c = z3.is_true(z)
            if isinstance(c, SBool):
                return self.summarise(lid, body, names, cond=cond)
            if not c:
                return None
            if count == 0 and self.while_symbolic(cond, body):
                return self.summarise(lid, body, names, cond=cond)
            r = self.step(body, body)
            if r is BREAK or isinstance(r, Ret):
                return r
            count += 1
            if count > 500:
                raise Unsupported('concrete loop does not end')

    def while_symbolic(self, cond, body):
        """does the condition become symbolic after one iteration?"""
        snap = Snap(self.roots(body))
        nobs, pcn = len(self.obs), len(self.pc)
        sym_ = False
        self.quiet += 1
        try:
            def one():
                r = body()
                if r is BREAK or isinstance(r, Ret):
                    return False
                c = cond()
                if isinstance(c, SBool):
                    z = norm(c.z)
                    return not (z3.is_true(z) or z3.is_false(z))
                return False
            outs = self.sub_explore(one, snap)
            sym_ = any(o.kind == 'normal' and o.val for o in outs) or \
                len([o for o in outs if o.kind in ('normal', 'break', 'ret')]) > 1
        finally:
            self.quiet -= 1
            snap.restore()
            del self.obs[nobs:]
            del self.pc[pcn:]
        return sym_

    def summarise(self, lid, body, names, n=None, elem=None, cond=None):
        from .loops import Summary
        return Summary(self, lid, body, names, n, elem, cond).run()

    # ---- generators
    def genlist(self):
        return []

    def gen(self, out):
        return GenList(out)

    def yield_(self, out, v):
        out.append(v)

    def yieldfrom(self, out, it):
        for p in self.parts(it):
            out.append(p[1] if p[0] == 'c' else Seg(p[1], p[2]))


class GenList(object):
    """what a generator would yield, as a consumable"""
    def __init__(self, out):
        self.out = out

    def __sym_parts__(self):
        ps = [('s', x.n, x.f) if isinstance(x, Seg) else ('c', x) for x in self.out]
        self.out = []
        return ps

    __sym_state__ = lambda self: (self.out,)

    def __sym_restore__(self, s):
        self.out = s[0]

    def __sym_kids__(self):
        return [self.out]

    def __sym_merge__(self, conds, vs):
        raise Unsupported('generators differ')

    def __iter__(self):
        return self

    def __next__(self):
        if not self.out:
            raise StopIteration
        if isinstance(self.out[0], Seg):
            s = self.out[0]
            if not bool(s.n > 0):
                self.out = self.out[1:]
                return self.__next__()
            v = RT.materialise(s, s.f(z3.IntVal(0)))
            f = s.f
            self.out = [Seg(s.n - 1, lambda i: f(zi(i) + 1))] + self.out[1:]
            return v
        v = self.out[0]
        self.out = self.out[1:]
        return v


def _slots_eq(obj, a, b):
    if a is b:
        return True
    if list(a.keys()) != list(b.keys()):
        return False
    return all(slot_same(obj, a[k], b[k]) for k in a)


def merge_lists(conds, vs):
    m = len(vs[0])
    if any(len(v) != m for v in vs):
        # a common prefix and at most one extra item: an optional item
        raise Unsupported('lists of different length on different paths')
    out = []
    for j in range(m):
        r = vs[-1][j]
        for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
            if isinstance(v[j], Seg) or isinstance(r, Seg):
                if v[j] is not r:
                    raise Unsupported('list segments differ between paths')
                continue
            r = v[j] if same(v[j], r) else ite(mkbool(c), v[j], r)
        out.append(r)
    return out


def truth(v):
    """truth value without forking where possible"""
    v = force(v)
    if isinstance(v, (bool, SBool)):
        return v
    if isinstance(v, SNum):
        return v != 0
    if v is None:
        return False
    if isinstance(v, (list, GenList)):
        return ln(v) > 0
    if hasattr(v, '__sym_truth__'):
        return v.__sym_truth__()
    return bool(v)


def ln(v):
    v = force(v)
    if isinstance(v, GenList):
        v = v.out
    if isinstance(v, (list, tuple)):
        r = 0
        for x in v:
            r = (r + x.n) if isinstance(x, Seg) else r + 1
        return r
    if hasattr(v, '__sym_len__'):
        return v.__sym_len__()
    return len(v)


RT = Runtime()
sym.RT = RT
