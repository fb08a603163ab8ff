"""Verification units: a specification function runs the real (instrumented) code on
symbolic inputs; every path's obligations are discharged."""
import sys
import time
import traceback
import z3
from fractions import Fraction
from . import sym, rt as _rtm, arr as _arr, ops, npm, lib, load, solve
from .rt import RT, Seg, OObj, Snap, same, slot_same
from .arr import SArr
from .sym import (SNum, SBool, Unsupported, PathEnd, num, zb, zi, mknum, mkbool, ite, land, lor, implies, norm, bvar,
                  forall, forall2, exists, mkred, mksel, toreal, I, Rl, B, isnum)
from .ops import SStr, S, slit


class V(object):
    """What a specification uses."""
    def __init__(self):
        self.notes = []
        self.invs, self.forms, self.fits = {}, {}, {}
        self.whiles = []

    # ---- program
    def world(self, contracts=None):
        self.w = load.World(contracts)
        npm.random.default.st.update(count=num(0), seed=npm.UNSEEDED)
        RT.extra_roots = [npm.random.default.st]
        RT.modules = self.w.mods
        return self.w

    def load(self, name):
        return self.w.load(name)

    # ---- inputs
    def int(self, name, lo=None, hi=None):
        x = mknum(z3.Int(name))
        if lo is not None:
            RT.assume(zb(x >= lo))
        if hi is not None:
            RT.assume(zb(x <= hi))
        return x

    def real(self, name, lo=None, hi=None):
        x = mknum(z3.Real(name))
        if lo is not None:
            RT.assume(zb(x >= lo))
        if hi is not None:
            RT.assume(zb(x <= hi))
        return x

    def bool(self, name):
        return mkbool(z3.Bool(name))

    def str(self, name):
        return SStr(z3.Const('str:' + name, S))

    def array(self, name, *shape, **k):
        dt = k.get('dt', 'f')
        srt = {'f': Rl, 'i': I, 'b': B}[dt]
        f = z3.Function(name, *([I] * len(shape) + [srt]))
        mk = mkbool if dt == 'b' else mknum
        return SArr(shape, lambda ix: mk(f(*ix)), dt)

    def fn(self, name, *sorts):
        return z3.Function(name, *sorts)

    def obj(self, name, kind='Obj', **ats):
        return OObj(z3.Const('obj:' + name, z3.DeclareSort('Obj')), kind, ats)

    # ---- assumptions and goals
    def assume(self, c):
        RT.assume(norm(zb(c)))

    def assume_all(self, n, f):
        c = forall(n, f)
        if c is not True:
            RT.assume(c.z)

    def ensure(self, name, c, loc='', hints=()):
        c = ops.truth(c) if not isinstance(c, (bool, SBool, z3.ExprRef)) else c
        RT.prove(name, zb(c) if not isinstance(c, z3.ExprRef) else c, loc, 'post', hints)

    def ensure_all(self, name, n, f, loc=''):
        """for an arbitrary index 0 <= i < n"""
        i = z3.Int('?i%d' % next(sym._cnt))
        save = len(RT.pc)
        RT.pc.append(z3.And(0 <= i, i < zi(n)))
        c = f(mknum(i))
        g = zb(c)
        RT.prove(name, g, loc, 'post', then_assume=False)
        del RT.pc[save:]
        if not z3.is_true(g):
            RT.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), g)))

    def ensure_all2(self, name, n, m, f, loc=''):
        i = z3.Int('?i%d' % next(sym._cnt))
        j = z3.Int('?i%d' % next(sym._cnt))
        save = len(RT.pc)
        RT.pc.append(z3.And(0 <= i, i < zi(n), 0 <= j, j < zi(m)))
        g = zb(f(mknum(i), mknum(j)))
        RT.prove(name, g, loc, 'post', then_assume=False)
        del RT.pc[save:]
        if not z3.is_true(g):
            RT.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < zi(n), 0 <= j, j < zi(m)), g)))

    def lemma(self, name, c):
        """proved, then available"""
        self.ensure('lemma ' + name, c)

    def case(self, c):
        """split the proof on a condition"""
        return bool(c)

    def shape_is(self, name, a, *shape):
        if not isinstance(a, SArr):
            self.ensure(name + ': is an array', False)
            raise PathEnd()
        if len(a.shape) != len(shape):
            self.ensure(name + ': dimensions', False)
            raise PathEnd()
        for d, e in zip(a.shape, shape):
            self.ensure(name + ': length', num(d) == num(e))

    def invariant(self, lid, f):
        self.invs.setdefault(lid, []).append(f)
        if lid != 'while':
            self.fits[f] = False

    def declare(self, lid, name, f):
        """the value of a variable of a loop before iteration t; shown inductively"""
        self.forms[lid, name] = f

    def terminates(self, measure):
        """variant of the while loops run from here on: an integer that decreases and stays >= 0"""
        self.measure = measure

    def needs_termination(self):
        a = [x for x in RT.assumed if x.endswith(' terminates')]
        if a:
            raise Unsupported('not shown: ' + a[0])

    def induction(self, name, n, p):
        """p(0), p(i) implies p(i + 1) below n; then p holds up to n"""
        self.ensure(name + ' (base)', p(num(0)))
        i = bvar('i')
        z = mknum(i)
        h = z3.And(0 <= i, i < zi(num(n)), zb(p(z)))
        RT.prove(name + ' (step)', z3.ForAll([i], z3.Implies(h, zb(p(z + 1)))), '', 'post', then_assume=False)
        RT.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= zi(num(n))), zb(p(z)))))

    # ---- frame
    def freeze(self, *objs):
        """snapshot of objects that must not change"""
        return [(o, Snap([o])) for o in objs]

    def unchanged(self, name, frozen):
        for o, s in frozen:
            for i, st in s.vals.items():
                ob = s.objs[i]
                now = Snap.slots(ob)
                ok = list(now) == list(st) and all(slot_same(ob, now[k], st[k]) for k in st)
                if not ok and isinstance(ob, SArr):
                    # extensional comparison
                    f, g = now[''][0], st[''][0]
                    vs = tuple(z3.Int('?u%d' % next(sym._cnt)) for _ in ob.shape)
                    rng = z3.And([z3.And(0 <= v, v < zi(d)) for v, d in zip(vs, ob.shape)] + [z3.BoolVal(True)])
                    e = zb(ops.truth(ops.eq(f(vs), g(vs))))
                    RT.prove('frame: ' + name, z3.Implies(rng, e), '', 'frame', then_assume=False)
                    continue
                if not ok and list(now) == list(st):
                    c = True
                    for k in st:
                        if not slot_same(ob, now[k], st[k]):
                            if isinstance(now[k], list):
                                c = land(c, ops.truth(ops.eq(list(st[k]), list(now[k]))))
                            else:
                                c = land(c, ops.truth(ops.eq(st[k], now[k])))
                    self.ensure('frame: ' + name, c)
                    continue
                RT.prove('frame: ' + name, z3.BoolVal(bool(ok)), '', 'frame', then_assume=False)


def internal(e):
    """did the exception come from the verifier itself rather than from the code it runs?"""
    fr = traceback.extract_tb(e.__traceback__)
    last = fr[-1]
    if '/pyvc/' in last.filename:
        return not ((last.line or '').strip().startswith('raise ') or
                    isinstance(e, (KeyError, IndexError, ZeroDivisionError, StopIteration)) or
                    'could not convert' in str(e))
    return '/z3/' in last.filename


class Unit(object):
    def __init__(self, prop, name, spec, functions=(), assumptions=(), budget=30.0, bounded=None):
        self.prop, self.name, self.spec = prop, name, spec
        self.functions, self.assumptions, self.budget = list(functions), list(assumptions), budget
        self.bounded = bounded


class Result(object):
    pass


def run_unit(u, workers=8, verbose=False):
    """explore and discharge; returns Result"""
    r = Result()
    r.unit, r.status, r.why, r.obs, r.paths = u, None, '', [], 0
    t0 = time.time()
    RT.reset()
    lib.reset()
    sym_state = None
    err = []

    def path():
        v = V()
        RT.v = v
        RT.fn = u.name
        try:
            u.spec(v)
        except (Unsupported, PathEnd):
            raise
        except Exception as e:
            if verbose:
                traceback.print_exc()
            if internal(e):
                raise Unsupported('%s in the verifier: %s' % (type(e).__name__, str(e)[:100]))
            RT.prove('no %s escapes: %s' % (type(e).__name__, str(e)[:120]), z3.BoolVal(False), '', 'safety',
                     then_assume=False)
    try:
        r.paths = RT.explore(path)
        r.obs = RT.obs
    except Unsupported as e:
        r.status, r.why = 'unsupported', str(e)
        if verbose:
            traceback.print_exc()
        r.obs = RT.obs
    except RecursionError as e:
        r.status, r.why = 'unsupported', 'recursion'
    except z3.Z3Exception as e:
        r.status, r.why = 'unsupported', 'z3: ' + str(e)[:200]
        if verbose:
            traceback.print_exc()
    r.explore_time = time.time() - t0
    if r.status is None:
        if not [o for o in r.obs if o.kind in ('post',)]:
            r.status, r.why = 'unsupported', 'no obligations'
        else:
            solve.discharge_all(r.obs, u.budget, workers)
            bad = [o for o in r.obs if o.status != 'proved']
            r.status = 'proved' if not bad else 'failed'
            if bad and getattr(RT, 'v', None) is not None and not all(RT.v.fits.values()):
                r.status, r.why = 'unsupported', 'an invariant of the contract does not fit the loops of the code'
                r.time, r.assumed = time.time() - t0, list(RT.assumed)
                return r
            r.why = '; '.join(sorted(set(o.name for o in bad)))
    r.time = time.time() - t0
    r.assumed = list(RT.assumed)
    return r
