"""lxml.etree as far as the source model reader and writer use it: trees of elements whose children may be symbolic sequences."""
import types
from .common import *

NAME = 'lxml_model'


class Up(object):
    """the parent of an element"""
    def __init__(self, e):
        self.e = e

    def __sym_subst__(self, pairs):
        return self

    def __sym_scan__(self):
        return []

    def __sym_same__(self, o):
        return isinstance(o, Up) and o.e is self.e


class Joined(object):
    """texts joined by blanks"""
    def __init__(self, parts):
        self.parts = parts

    def split(self, sep=None, most=-1):
        if sep not in (None, ' ') or most != -1:
            raise Unsupported('split')
        return list(self.parts)

    def strip(self):
        return self

    def __sym_subst__(self, pairs):
        return Joined(rt.vsubst(self.parts, pairs))

    def __sym_scan__(self):
        return [self.parts]

    def __sym_same__(self, o):
        return isinstance(o, Joined) and len(o.parts) == len(self.parts) and all(rt.same(a, b) for a, b in zip(self.parts, o.parts))


def join(sep, l):
    if sep != ' ':
        raise Unsupported('join with %r' % (sep,))
    return Joined([x for y in l for x in words_of(y)])


def blanks(x):
    """the arguments of a text formatted as words separated by single blanks"""
    if isinstance(x, ops.SStr) and x.t.decl().name().startswith('FORMAT:'):
        w = x.t.decl().name()[7:].split(' ')
        if len(w) > 1 and all(y == '%s' for y in w) and len(w) == x.t.num_args():
            return [x.t.arg(i) for i in range(len(w))]


def words_of(x):
    """a joined item as the words it consists of"""
    word = lambda t: lib.num_text(mknum(t)) if t.sort() == Rl else ops.SStr(t)
    if not isinstance(x, Seg):
        return [word(t) for t in blanks(x) or ()] or [x]
    probe = blanks(sym.force(x.f(z3.FreshConst(I, 'item'))))
    if not probe or len(set(str(t.sort()) for t in probe)) != 1 or probe[0].sort() not in (Rl, ops.S):
        return [x]
    k = len(probe)

    def at(q):
        q = zi(q)
        a = blanks(sym.force(x.f(q / k)))
        r = a[-1]
        for i in range(k - 2, -1, -1):
            r = z3.If(q % k == i, a[i], r)
        return word(r)
    return [Seg(k * num(x.n), at)]


class Elem(object):
    def __init__(self, tag, attrib=None, nsmap=None, **kw):
        self.tag, self.attrib, self.text, self.children, self.up = tag, dict(attrib or {}), None, [], None
        self.attrib.update(kw)
        self.nsmap = nsmap

    # ---- attributes
    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def set(self, k, x):
        self.attrib[k] = x

    def keys(self):
        return list(self.attrib)

    def items(self):
        return list(self.attrib.items())

    # ---- structure
    def append(self, e):
        if not isinstance(e, Elem):
            raise TypeError('not an element')
        if e.up is not None:
            raise Unsupported('an element is moved')
        self.children.append(e)

    def extend(self, es):
        for e in ops.seq_list(es):
            if isinstance(e, Seg):
                self.children.append(e)
            else:
                self.append(e)

    def getparent(self):
        if self.up is None:
            raise Unsupported('parent of a new element')
        return self.up.e

    def getchildren(self):
        return list(self.children)

    def __iter__(self):
        if any(isinstance(c, Seg) for c in self.children):
            raise Unsupported('iteration over children')
        return iter(list(self.children))

    def __len__(self):
        return len(self.children)

    def __bool__(self):
        raise Unsupported('truth of an element')

    def plain(self):
        for c in self.children:
            if isinstance(c, Seg):
                raise Unsupported('search through a sequence of elements')
            yield c

    def walk(self):
        for c in self.plain():
            yield c
            for d in c.walk():
                yield d

    def steps(self, path):
        """(deep, tag) steps of a path"""
        if not isinstance(path, str):
            raise Unsupported('path')
        out, deep = [], False
        for p in parts(path):
            if p == '.':
                continue
            if p == '':
                deep = True
                continue
            if any(ch in p.split('}')[-1] for ch in '[]@*') or p == '..':
                raise Unsupported('path %s' % path)
            out.append((deep, p))
            deep = False
        return out

    def iterfind(self, path):
        def go(e, steps):
            if not steps:
                yield e
                return
            deep, tag = steps[0]
            for c in (e.walk() if deep else e.plain()):
                if c.tag == tag:
                    for x in go(c, steps[1:]):
                        yield x
        return go(self, self.steps(path))

    def find(self, path, namespaces=None):
        if namespaces:
            raise Unsupported('namespaces')
        for e in self.iterfind(path):
            return e
        return None

    def findall(self, path, namespaces=None):
        if namespaces:
            raise Unsupported('namespaces')
        return list(self.iterfind(path))

    def findtext(self, path, default=None):
        e = self.find(path)
        return default if e is None else e.text if e.text is not None else ''

    def iter(self, tag=None):
        for e in [self] + list(self.walk()):
            if tag is None or e.tag == tag:
                yield e

    def clear(self, keep_tail=False):
        self.attrib.clear()
        self.children[:] = []
        self.text = None


def parts(path):
    """a path at the slashes outside of braces"""
    out, cur, depth = [], '', 0
    for ch in path:
        depth += {'{': 1, '}': -1}.get(ch, 0)
        if ch == '/' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def sub(parent, tag, attrib=None, nsmap=None, **kw):
    e = Elem(tag, attrib, nsmap, **kw)
    parent.append(e)
    return e


class Tree(object):
    def __init__(self, lib_, root):
        self.lib, self.root = lib_, root

    def getroot(self):
        return self.root

    def write(self, f, encoding=None, xml_declaration=None, pretty_print=False, **kw):
        if kw:
            raise Unsupported('options of ElementTree.write')
        if isinstance(f, (str, ops.SStr)):
            f = self.lib.open(f, 'wb')
        if not isinstance(f, Handle) or f.mode != 'wb':
            raise Unsupported('document written to %r' % type(f))
        f.store(self.root, encoding)


class Handle(object):
    def __init__(self, lib_, name, mode):
        self.lib, self.name, self.mode = lib_, name, mode

    def store(self, root, encoding):
        self.lib.v.ensure('the document is written once', self.lib.written is None)
        self.lib.written = (self.name, root, encoding)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    flush = close


class Xml(object):
    """the library, and the files"""
    def __init__(self, v):
        self.v, self.written, self.source = v, None, None
        mod = types.ModuleType(NAME)
        Elem.__module__ = NAME
        mod.Elem = Elem
        RT.modules[NAME] = mod
        m = lib._mod('lxml.etree', Element=Elem, SubElement=sub, ElementTree=lambda e: Tree(self, e), iterparse=self.iterparse,
                     parse=lambda f: ('document', f), XMLSchema=lambda d=None, **k: ('schema', d))
        lib.HOOKS['etree'] = m
        lib.HOOKS['open'] = self.open
        lib.HOOKS['join'] = join

    def open(self, name, mode='r', *a, **kw):
        if a or kw or mode not in ('rb', 'wb', 'r'):
            raise Unsupported('open(%r)' % (mode,))
        return Handle(self, name, mode)

    def document(self, name, root, events):
        """the file of this name holds this document; its elements in the order in which they end"""
        self.source = (name, root, events)
        RT.extra_roots.append(root)

    def iterparse(self, f, events=('end',), tag=None, schema=None, **kw):
        if kw or [sym.force(e) for e in ops.seq_list(events)] != ['end'] or tag is not None:
            raise Unsupported('options of iterparse')
        name = f.name if isinstance(f, Handle) else f
        self.v.ensure('the given file is read', ops.truth(ops.eq(name, self.source[0])))
        return rt.GenList(list(self.source[2]))
