"""Models of the external modules other than numpy."""
import types
import z3
from fractions import Fraction
from . import sym
from .rt import RT, Seg, GenList
from .sym import SNum, SBool, Unsupported, num, zb, zi, mknum, mkbool, ite, norm, isnum, force, toreal

FS = {}
HOOKS = {}


def reset():
    FS.clear()
    HOOKS.clear()


def _mod(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)

    def ga(a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('%s.%s' % (name, a))
    m.__getattr__ = ga
    return m


def external(name):
    """a model module, or None for the native one"""
    if name in HOOKS:
        return HOOKS[name]
    if name == 'math':
        from . import npm
        m = _mod('math', pi=npm.pi)
        for k in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'log10', 'atan2', 'radians', 'degrees', 'fabs', 'hypot',
                  'asin', 'acos', 'atan'):
            setattr(m, k, getattr(npm, {'atan2': 'arctan2', 'asin': 'arcsin', 'acos': 'arccos',
                                        'atan': 'arctan'}.get(k, k)))
        m.floor, m.ceil = (lambda v: sym.floor(force(v))), (lambda v: sym.ceil(force(v)))
        m.trunc = lambda v: sym.trunc(force(v))
        m.pow = lambda a, b: toreal(sym.power(force(a), force(b)))
        m.log = lambda a, b=None: sym.ln(toreal(num(force(a)))) if b is None else \
            sym.ln(toreal(num(force(a)))) / sym.ln(toreal(num(force(b))))
        m.e = sym.exp(1)
        m.isnan = m.isinf = lambda v: False

        def fsum(v):
            from . import ops
            return ops.sum_(v)
        m.fsum = fsum
        return m
    if name == 'copy':
        return _mod('copy', copy=_copy, deepcopy=_deepcopy)
    if name in ('abc', 'os', 'os.path', 'sys', 'collections', 'operator', 'itertools', 'string',
                'types', 'argparse', 're', 'warnings', 'contextlib', 'time'):
        return None
    if name == 'functools':
        from . import ops
        import functools
        m = _mod('functools', reduce=ops.reduce_)
        for k in ('wraps', 'partial', 'update_wrapper', 'total_ordering'):
            setattr(m, k, getattr(functools, k))
        return m
    if name == 'yaml':
        return _mod('yaml', load=_hook('yaml.load'), safe_load=_hook('yaml.load'))
    if name == 'datetime':
        return _mod('datetime', datetime=_Datetime(), date=_Datetime())
    if name == 'csv':
        return _mod('csv', DictReader=_hook('csv.DictReader'), DictWriter=_hook('csv.DictWriter'),
                    reader=_hook('csv.reader'), writer=_hook('csv.writer'))
    if name == 'lxml':
        return _mod(name, etree=HOOKS.get('etree') or _mod('lxml.etree'))
    if name == 'shapely' or name == 'scipy' or name == 'nhlib' or name == 'scipy.stats' \
            or name == 'nhlib.scalerel':
        return _mod(name)
    if name == 'shapely.geometry':
        return _mod(name, Point=_hook('Point'), Polygon=_hook('Polygon'))
    if name == 'lxml.etree':
        return HOOKS.get('etree') or _mod(name)
    if name == 'scipy.stats.mstats':
        return _mod(name, mquantiles=_hook('mquantiles'))
    if name == 'nhlib.scalerel.wc1994':
        return _mod(name, WC1994=_hook('WC1994'))
    return _mod(name)


def _hook(name):
    def f(*a, **k):
        if name not in HOOKS:
            raise Unsupported(name)
        return HOOKS[name](*a, **k)
    return f


class _Datetime(object):
    """datetime.datetime: the current year is an unknown constant"""
    def now(self, *a):
        return _Now()
    utcnow = today = now

    def __getattr__(self, a):
        raise Unsupported('datetime.%s' % a)


NOWYEAR = z3.Int('CURRENT_YEAR')


class _Now(object):
    year = SNum(None, NOWYEAR, True)

    def __getattr__(self, a):
        raise Unsupported('now().%s' % a)


def _copy(v):
    v = force(v)
    if isinstance(v, (list, dict, set)):
        return type(v)(v)
    if hasattr(v, 'copy'):
        return v.copy()
    if type(v).__module__ in RT.modules:
        n = object.__new__(type(v))
        n.__dict__.update(v.__dict__)
        return n
    return v


def _deepcopy(v, memo=None):
    v = force(v)
    if isinstance(v, list):
        return type(v)(Seg(x.n, lambda i, f=x.f: _deepcopy(f(i))) if isinstance(x, Seg) else _deepcopy(x) for x in v)
    if isinstance(v, tuple):
        xs = [_deepcopy(x) for x in v]
        return type(v)(*xs) if hasattr(v, '_fields') else tuple(xs)
    if isinstance(v, dict):
        return type(v)((k, _deepcopy(x)) for k, x in v.items())
    if type(v).__module__ in RT.modules:
        n = object.__new__(type(v))
        n.__dict__.update({k: _deepcopy(x) for k, x in v.__dict__.items()})
        return n
    if type(v).__name__ == 'SArr':
        return v.copy()
    return v


# ------------------------------------------------------------------ text
def format_text(f, args):
    return None


def num_text(v):
    from . import ops
    return ops.SStr(ops.NUMTEXT(toreal(v).real()), ('num', v))


_STR = z3.DeclareSort('Str')
INTOK, INTOF = z3.Function('INTOK', _STR, z3.BoolSort()), z3.Function('INTOF', _STR, z3.IntSort())
FLOATOK, FLOATOF = z3.Function('FLOATOK', _STR, z3.BoolSort()), z3.Function('FLOATOF', _STR, z3.RealSort())


def str_int(s):
    """int(text): a ValueError, or the integer"""
    if s.info is not None and s.info[0] == 'num':
        if num(s.info[1]).int:
            return num(s.info[1])
        raise ValueError('invalid literal for int() with base 10: text of a number with decimals')
    if not bool(mkbool(INTOK(s.t))):
        raise ValueError('invalid literal for int() with base 10: unknown text')
    return mknum(INTOF(s.t))


def str_float(s):
    """float(text): a ValueError, or the number"""
    if s.info is not None and s.info[0] == 'num':
        return toreal(num(s.info[1]))
    if not bool(mkbool(FLOATOK(s.t))):
        raise ValueError('could not convert string to float: unknown text')
    return mknum(FLOATOF(s.t))


def str_method(o, name, args):
    from . import ops
    if name == 'join':
        l = ops.seq_list(args[0])
        if any(isinstance(x, Seg) for x in l) or ops.symbolic_in(l):
            h = HOOKS.get('join')
            if h:
                return h(o, l)
            return '<joined>'
        return o.join(l)
    if name == 'format':
        if ops.symbolic_in(args):
            t = ops.fmt_term(o, args)
            return t if t is not None else '<formatted>'
        return o.format(*[ops._plain(a) for a in args])
    return getattr(o, name)(*[ops._plain(a) for a in args])


# ------------------------------------------------------------------ files
def open_(name, mode='r', *a, **k):
    h = HOOKS.get('open')
    if h is None:
        raise Unsupported('open')
    return h(name, mode, *a, **k)


def np_savetxt(fname, X, fmt, delimiter, k):
    h = HOOKS.get('savetxt')
    if h is None:
        raise Unsupported('savetxt')
    return h(fname, X, fmt, delimiter, k)


def np_genfromtxt(fname, k):
    h = HOOKS.get('genfromtxt')
    if h is None:
        raise Unsupported('genfromtxt')
    return h(fname, k)
