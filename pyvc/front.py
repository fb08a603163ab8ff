"""Front end: /repo source -> lib2to3 (the project's own build translation) -> ast
-> instrumented code object.

The instrumentation is mechanical and local: float literals become exact
rationals, `/ % **`, chained comparisons, `not`, `in`, subscripts, a few method
calls and comprehensions call the run time, and each loop body becomes a local
function so that the run time can execute an arbitrary iteration.  Nothing of a
function body is dropped (docstrings excepted).  See DESIGN.md, "extraction".
"""
import ast, builtins, hashlib, logging, os, sys, types, warnings

warnings.simplefilter('ignore')
logging.disable(logging.WARNING)
from lib2to3 import refactor
logging.disable(logging.NOTSET)

REPO = os.environ.get('VERIF_REPO', '/repo')
_TOOL = None


def translate_text(text, name='<src>'):
    """The translation the project's build applies (same fixers)."""
    global _TOOL
    if not text.endswith('\n'):
        text += '\n'
    if _TOOL is None:
        fx = refactor.get_fixers_from_package('lib2to3.fixes')
        logging.disable(logging.CRITICAL)
        _TOOL = (refactor.RefactoringTool(fx),
                 refactor.RefactoringTool([f for f in fx if not f.endswith('.fix_print')],
                                          {'print_function': True}))
        logging.disable(logging.NOTSET)
    logging.disable(logging.CRITICAL)
    try:
        try:
            return str(_TOOL[0].refactor_string(text, name))
        except Exception as first:
            try:
                return str(_TOOL[1].refactor_string(text, name))
            except Exception:
                raise first
    finally:
        logging.disable(logging.NOTSET)


def repo_sources(repo=None):
    """module name -> path for the packages of the repository and main.py"""
    repo = repo or REPO
    out = {}
    for top in ('mtoolkit', 'nrml'):
        for path, dirs, files in os.walk(os.path.join(repo, top)):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(path, f)
                    m = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                    if m.endswith('.__init__'):
                        m = m[:-9]
                    out[m] = p
    for f in sorted(os.listdir(repo)):
        if f.endswith('.py'):
            out[f[:-3]] = os.path.join(repo, f)
    return out


_CACHE = {}


def translated(path):
    with open(path, 'rb') as f:
        src = f.read()
    key = hashlib.sha256(src).hexdigest()
    if key not in _CACHE:
        tree = os.environ.get('VERIF_TREE')     # translated by check.py, in this same run, from this same file
        t = os.path.join(tree, os.path.relpath(path, REPO)) if tree else None
        if t and os.path.exists(t):
            with open(t, encoding='utf-8') as f:
                _CACHE[key] = f.read()
        else:
            _CACHE[key] = translate_text(src.decode('utf-8'), path)
    return _CACHE[key]


# --------------------------------------------------------------- instrument

def _n(name, ctx=None):
    return ast.Name(name, ctx or ast.Load())


def _rt(attr, *args):
    return ast.Call(ast.Attribute(_n('_rt'), attr, ast.Load()), list(args), [])


def _lam(body, args=()):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)


class _Stores(ast.NodeVisitor):
    """Names bound by statements, excluding nested scopes."""
    def __init__(self):
        self.names, self.globals = [], set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_ListComp(self, n):
        self.visit(n.generators[0].iter)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import


def _stores(stmts):
    v = _Stores()
    for s in stmts:
        v.visit(s)
    return [x for x in v.names if x not in v.globals]


def _has(stmts, kinds):
    """Does one of the statements contain such a node in the same function?"""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class _Jumps(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(ast.Attribute(_n('_rt'), 'BREAK', ast.Load())), n)

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(_rt('Ret', n.value or ast.Constant(None))), n)


class _Returns(ast.NodeTransformer):
    """return statements of a generator"""
    def visit_FunctionDef(self, n):
        if n.name.startswith('__b'):
            return n
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(_rt('gen', _n('__out'))), n)


METHODS = {'join', 'extend', 'format', 'index', 'count', 'split', 'sort', 'strip', 'startswith',
           'endswith', 'insert', 'remove', 'update'}


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []          # stack of [qualname, loop counter, bound names, is generator]
        self.cls = []
        self.n = 0
        self.loops = {}

    # ---- scopes
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.func.append(None)
        self.generic_visit(n)
        self.func.pop()
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        qual = '.'.join(self.cls + [n.name])
        gen = _has(n.body, (ast.Yield, ast.YieldFrom))
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self._defaults(n.args)
        self.func.append([qual, 0, [], gen])
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        fr = self.func.pop()
        if fr[2]:
            params = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
            names = [x for x in fr[2] if x not in params]
            if names:
                bind = ast.If(ast.Constant(0), [ast.Assign([_n(x, ast.Store())], ast.Constant(None))
                                                for x in names], [])
                at = 1 if (body and isinstance(body[0], ast.Expr) and
                           isinstance(body[0].value, ast.Constant)) else 0
                ast.copy_location(bind, n)
                ast.fix_missing_locations(bind)
                body.insert(at, bind)
        n.body = body
        if gen:
            # a generator becomes the function that builds the list of what it yields
            body = [_Returns().visit(s) for s in n.body]
            at = 1 if (body and isinstance(body[0], ast.Expr) and
                       isinstance(body[0].value, ast.Constant)) else 0
            body.insert(at, ast.Assign([_n('__out', ast.Store())], _rt('genlist')))
            body.append(ast.Return(_rt('gen', _n('__out'))))
            n.body = body
            ast.fix_missing_locations(ast.copy_location(body[at], n))
            ast.fix_missing_locations(ast.copy_location(body[-1], n))
        return n

    def visit_Yield(self, n):
        self.generic_visit(n)
        return ast.copy_location(_rt('yield_', _n('__out'), n.value or ast.Constant(None)), n)

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        return ast.copy_location(_rt('yieldfrom', _n('__out'), n.value), n)

    def _defaults(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]

    def visit_Lambda(self, n):
        self._defaults(n.args)
        self.func.append(None)
        n.body = self.visit(n.body)
        self.func.pop()
        return n

    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(_rt('lit', ast.Constant(repr(n.value))), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        op = {ast.Div: 'div', ast.Mod: 'mod', ast.Pow: 'pow', ast.FloorDiv: 'floordiv'}.get(type(n.op))
        if op:
            return ast.copy_location(_rt(op, n.left, n.right), n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(_rt('not_', n.operand), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        ops = [type(o).__name__ for o in n.ops]
        if len(ops) == 1:
            if ops[0] in ('In', 'NotIn'):
                r = _rt('in_', n.left, n.comparators[0])
                if ops[0] == 'NotIn':
                    r = _rt('not_', r)
                return ast.copy_location(r, n)
            if ops[0] in ('Eq', 'NotEq'):
                return ast.copy_location(_rt(ops[0].lower(), n.left, n.comparators[0]), n)
            return n
        return ast.copy_location(_rt('chain', ast.Constant(','.join(ops)), n.left,
                                     *[_lam(c) for c in n.comparators]), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.func is not None:
            return ast.copy_location(_rt('getitem', n.value, self._idx(n.slice)), n)
        return n

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            z = ast.Constant(None)
            return ast.Call(_n('slice'), [s.lower or z, s.upper or z, s.step or z], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._idx(e) for e in s.elts], ast.Load())
        return s

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS and not n.keywords:
            return ast.copy_location(_rt('callm', n.func.value, ast.Constant(n.func.attr), *n.args), n)
        return n

    def _comp(self, n, kind, elts):
        gens = n.generators
        for g in gens:
            g.iter = self.visit(g.iter)
            g.ifs = [self.visit(i) for i in g.ifs]
            g.target = self.visit(g.target)
        elts = [self.visit(e) for e in elts]
        elt = elts[0] if len(elts) == 1 else ast.Tuple(elts, ast.Load())
        first = gens[0].iter
        gens[0].iter = ast.Tuple([_n('__it')], ast.Load())
        for g in gens[1:]:
            g.iter = _rt('concrete_iter', g.iter)
        inner = ast.ListComp(elt, gens)
        return ast.copy_location(_rt('comp', ast.Constant(kind), first, _lam(inner, ['__it'])), n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list', [n.elt])

    def visit_SetComp(self, n):
        return self._comp(n, 'set', [n.elt])

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen', [n.elt])

    def visit_DictComp(self, n):
        return self._comp(n, 'dict', [n.key, n.value])

    # ---- statements
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript):
            self.generic_visit(n)
            op = type(n.op).__name__
            return ast.copy_location(ast.Expr(_rt('augitem', n.target.value, self._idx(n.target.slice),
                                                  ast.Constant(op), n.value)), n)
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Mod, ast.Pow, ast.FloorDiv)) and isinstance(n.target, ast.Name):
            f = {ast.Div: 'div', ast.Mod: 'mod', ast.Pow: 'pow', ast.FloorDiv: 'floordiv'}[type(n.op)]
            return ast.copy_location(ast.Assign([n.target], _rt('aug' + f, _n(n.target.id), n.value)), n)
        return n

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        n.targets = [self.visit(t) for t in n.targets]
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Expr(_rt('setitem', t.value, self._idx(t.slice), n.value)), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.copy_location(_n('Exception'), n)
        return n

    def visit_Assert(self, n):
        self.generic_visit(n)
        return n

    def _frame(self):
        for f in reversed(self.func):
            return f
        return None

    def visit_For(self, n):
        return self._loop(n)

    def visit_While(self, n):
        return self._loop(n)

    def _loop(self, n):
        fr = self._frame()
        if fr is None:          # module or class level
            self.generic_visit(n)
            return n
        fr[1] += 1
        lid = '%s:%s#%d' % (self.mod, fr[0], fr[1])
        isfor = isinstance(n, ast.For)
        names = _stores([n] if isfor else n.body)
        self.n += 1
        k = self.n
        for x in names:
            if x not in fr[2]:
                fr[2].append(x)
        test = self.visit(n.iter if isfor else n.test)
        hasret = _has(n.body, (ast.Return,))
        body = []
        if isfor:
            tgt = self.visit(n.target)
            a = ast.Assign([tgt], _n('__it'))
            if isinstance(tgt, ast.Subscript):
                a = ast.Expr(_rt('setitem', tgt.value, self._idx(tgt.slice), _n('__it')))
            body.append(ast.copy_location(a, n))
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        body = [_Jumps().visit(s) for s in body]
        if names:
            body.insert(0, ast.copy_location(ast.Nonlocal(names), n))
        args = ['__it'] if isfor else []
        fd = ast.FunctionDef('__b%d' % k, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []),
                             body, [], None)
        if sys.version_info >= (3, 12):
            fd.type_params = []
        out = [ast.copy_location(fd, n)]
        nm = ast.Tuple([ast.Constant(x) for x in names], ast.Load())
        call = _rt('for_' if isfor else 'while_', ast.Constant(lid), test if isfor else _lam(test),
                   _n('__b%d' % k), nm, ast.Constant(n.lineno))
        out.append(ast.copy_location(ast.Assign([_n('__r%d' % k, ast.Store())], call), n))
        if hasret:
            out.append(ast.copy_location(ast.If(
                _rt('isret', _n('__r%d' % k)),
                [ast.Return(ast.Attribute(_n('__r%d' % k), 'v', ast.Load()))], []), n))
        if n.orelse:
            orelse = []
            for s in n.orelse:
                r = self.visit(s)
                orelse.extend(r if isinstance(r, list) else [r])
            out.append(ast.copy_location(ast.If(_rt('notbroken', _n('__r%d' % k)), orelse, []), n))
        for o in out:
            ast.fix_missing_locations(o)
        # the synthetic names are locals of the enclosing function (or loop body)
        return out


def instrument(text, modname, path):
    tree = ast.parse(text, path)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree
