"""Shared by the sidecar contracts."""
import z3
from fractions import Fraction
from pyvc import sym, arr, npm, ops, lib, rt
from pyvc.rt import RT, Seg, OObj
from pyvc.arr import SArr
from pyvc.sym import (num, zb, zi, mknum, mkbool, ite, land, lor, not_, implies, forall, forall2, exists, mkred, toreal,
                      exp, ln, log10, sqrt, sin, cos, atan2, floor, ceil, trunc, absv, smax, smin, I, Rl, B, norm,
                      Unsupported, PathEnd)
from pyvc.verify import Unit, V

F = lambda s: num(Fraction(s))
PI = mknum(sym.PI)


def p10(x):
    """10 ** x"""
    return exp(ln(num(10)) * x)


CU = 'mtoolkit.scientific.catalogue_utilities'
DC = 'mtoolkit.scientific.declustering'
CO = 'mtoolkit.scientific.completeness'
RE = 'mtoolkit.scientific.recurrence'
MM = 'mtoolkit.scientific.maximum_magnitude'
FC = 'mtoolkit.scientific.fault_calculator'


def roles(v, qual, call):
    """arguments of a call of a function of the repository by parameter name, defaults filled in"""
    import ast
    from pyvc import front
    mod, fn = qual.split(':')
    for d in ast.parse(front.translated(v.w.src[mod])).body:
        if isinstance(d, ast.FunctionDef) and d.name == fn:
            break
    else:
        raise Unsupported(qual + ' is gone')
    if d.args.vararg or d.args.kwarg or d.args.kwonlyargs:
        raise Unsupported('parameters of ' + qual)
    names = [a.arg for a in d.args.args]
    args, kw = call
    if len(args) > len(names) or any(k not in names[len(args):] for k in kw):
        raise TypeError(qual + ' is called with other arguments')
    got = dict(zip(names, args))
    got.update(kw)
    for a, e in zip(names[len(names) - len(d.args.defaults):], d.args.defaults):
        if a not in got:
            try:
                x = ast.literal_eval(e)
                got[a] = num(Fraction(repr(x))) if isinstance(x, float) else x
            except ValueError:
                raise Unsupported('default of %s' % a)
    if any(k not in got for k in names):
        raise TypeError(qual + ' is called with too few arguments')
    return [got[k] for k in names]
