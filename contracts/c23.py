"""C23: source models."""
from .common import *
from . import xmlmodel
from .xmlmodel import Elem, Up, Joined, Xml
from .c04 import os_model
from .c27 import JOBS, context

SM, RD, WR = 'mtoolkit.source_model', 'nrml.reader', 'nrml.writer'
N = '{http://openquake.org/xmlns/nrml/0.3}'
G = '{http://www.opengis.net/gml}'
TEXTS = ('nrml_id', 'source_model_id', 'area_source_id', 'name', 'tectonic_region', 'srs', 'type_tgr', 'type_mag')
NUMS = ('a', 'b', 'mmin', 'mmax', 'strike', 'dip', 'rake', 'hypo')


def item(l, j):
    return ops.at(list(l), zi(j))


class Sources(object):
    """n area sources of one source model, by their attributes"""
    def __init__(self, v, name='source'):
        self.n = v.int('number of ' + name, 1)
        self.t = {k: z3.Function('%s %s' % (name, k), I, ops.S) for k in TEXTS}
        self.x = {k: z3.Function('%s %s' % (name, k), I, Rl) for k in NUMS}
        self.len = {k: z3.Function('%s number of %s' % (name, k), I, I) for k in ('points', 'mags', 'depths')}
        self.seq = {k: z3.Function('%s %s' % (name, k), I, I, Rl) for k in ('lon', 'lat', 'mags', 'depths')}
        for k in self.len:
            v.assume(forall(self.n, lambda i: mknum(self.len[k](zi(i))) >= 1))

    def text(self, i, k):
        return ops.SStr(self.t[k](z3.IntVal(0) if k in ('nrml_id', 'source_model_id') else zi(i)))

    def num(self, i, k):
        return mknum(self.x[k](zi(i)))

    def count(self, i, k):
        return mknum(self.len[k](zi(i)))

    def item(self, i, k, j):
        return mknum(self.seq[k](zi(i), zi(j)))

    def source(self, m, i):
        """the i-th source as an object"""
        s = m.AreaSource()
        s.nrml_id, s.source_model_id, s.area_source_id = [self.text(i, k) for k in TEXTS[:3]]
        s.name, s.tectonic_region = self.text(i, 'name'), self.text(i, 'tectonic_region')
        s.area_boundary = m.AREA_BOUNDARY(self.text(i, 'srs'), [Seg(self.count(i, 'points'), lambda j: m.POINT(
            self.item(i, 'lon', j), self.item(i, 'lat', j)))])
        s.rupture_rate_model = m.RUPTURE_RATE_MODEL(m.TRUNCATED_GUTEN_RICHTER(
            *([self.num(i, k) for k in ('a', 'b', 'mmin', 'mmax')] + [self.text(i, 'type_tgr')])),
            *[self.num(i, k) for k in ('strike', 'dip', 'rake')])
        s.rupture_depth_dist = m.RUPTURE_DEPTH_DISTRIB(m.MAGNITUDE(self.text(i, 'type_mag'), [Seg(
            self.count(i, 'mags'), lambda j: self.item(i, 'mags', j))]), [Seg(self.count(i, 'depths'), lambda j: self.item(i, 'depths', j))])
        s.hypocentral_depth = self.num(i, 'hypo')
        return s

    def words(self, i, k):
        return Joined([Seg(self.count(i, k), lambda j: lib.num_text(self.item(i, k, j)))])

    def coordinates(self, i):
        def word(q):
            q = zi(q)
            return lib.num_text(ite(mkbool(q % 2 == 0), self.item(i, 'lon', q / 2), self.item(i, 'lat', q / 2)))
        return Joined([Seg(2 * self.count(i, 'points'), word)])

    def element(self, i, parent=None):
        """the i-th source as an element"""
        def e(tag, text=None, kids=(), **at):
            x = Elem(tag, dict((G + 'id' if k == 'id' else k, y) for k, y in at.items()))
            x.text = text
            x.children = list(kids)
            for k in kids:
                k.up = Up(x)
            return x
        t, x = self.text, lambda k: lib.num_text(self.num(i, k))
        r = e(N + 'areaSource', None, [
            e(G + 'name', t(i, 'name')),
            e(N + 'tectonicRegion', t(i, 'tectonic_region')),
            e(N + 'areaBoundary', None, [e(G + 'Polygon', None, [e(G + 'exterior', None, [e(G + 'LinearRing', None, [
                e(G + 'posList', self.coordinates(i))], srsName=t(i, 'srs'))])])]),
            e(N + 'ruptureRateModel', None, [
                e(N + 'truncatedGutenbergRichter', None, [
                    e(N + 'aValueCumulative', x('a')), e(N + 'bValue', x('b')), e(N + 'minMagnitude', x('mmin')),
                    e(N + 'maxMagnitude', x('mmax'))], type=t(i, 'type_tgr')),
                e(N + 'strike', x('strike')), e(N + 'dip', x('dip')), e(N + 'rake', x('rake'))]),
            e(N + 'ruptureDepthDistribution', None, [
                e(N + 'magnitude', self.words(i, 'mags'), type=t(i, 'type_mag')), e(N + 'depth', self.words(i, 'depths'))]),
            e(N + 'hypocentralDepth', x('hypo'))], id=t(i, 'area_source_id'))
        if parent is not None:
            r.up = Up(parent)
        return r


def ends(e):
    """the elements below, and the element, in the order in which they end"""
    return [x for c in e.children for x in ends(c)] + [e]


def events(root_children, sources, parent, before=(), after=()):
    return ([('end', x) for b in before for x in ends(b)] +
            [Seg(sources.n, lambda i: rt.Bundle([('end', x) for x in ends(sources.element(i, parent))]))] +
            [('end', x) for a in after for x in ends(a)] + [('end', parent), ('end', parent.up.e)])


def world(v):
    v.world()
    x = Xml(v)
    lib.HOOKS['os'], lib.HOOKS['os.path'] = os_model()
    return x


def text_is(a, b):
    """the same text"""
    if isinstance(a, Joined) or isinstance(b, Joined):
        if type(a) is not type(b):
            return False
        la, lb = ops.len_(a.parts), ops.len_(b.parts)
        return land(num(la) == num(lb), forall(lb, lambda q: text_is(item(a.parts, q), item(b.parts, q))))
    if isinstance(a, ops.SStr) and isinstance(b, ops.SStr) and a.info and b.info and a.info[0] == b.info[0] == 'num':
        return num(a.info[1]) == num(b.info[1])
    if a is None or b is None:
        return a is b
    if not isinstance(a, (str, ops.SStr, sym.Choice)):
        return False
    return ops.truth(ops.eq(a, b))


def tree_is(a, b):
    if a.tag != b.tag or sorted(a.attrib) != sorted(b.attrib) or len(a.children) != len(b.children):
        return False
    return land(text_is(a.text, b.text), *([text_is(a.attrib[k], b.attrib[k]) for k in a.attrib] +
                                           [tree_is(x, y) for x, y in zip(a.children, b.children)]))


def write(v):
    x = world(v)
    m = v.load(SM)
    w = v.load(WR)
    s = Sources(v)
    name = v.str('file name')
    lst = [Seg(s.n, lambda i: s.source(m, i))]
    fz = v.freeze(lst)
    w.AreaSourceWriter(name).serialize(lst)
    v.unchanged('sources', fz)
    v.ensure('a document is written', x.written is not None)
    if x.written is None:
        return
    v.ensure('it is written to the given file', ops.truth(ops.eq(x.written[0], name)))
    r = x.written[1]
    ok = isinstance(r, Elem) and r.tag == N + 'nrml' and sorted(r.attrib) == [G + 'id'] and len(r.children) == 1 and r.text is None
    v.ensure('the document is one nrml element', ok)
    if not ok:
        return
    v.ensure('identifier of the document', text_is(r.attrib[G + 'id'], s.text(0, 'nrml_id')))
    c = r.children[0]
    ok = c.tag == N + 'sourceModel' and sorted(c.attrib) == [G + 'id'] and c.text is None
    v.ensure('the document holds one source model', ok)
    if not ok:
        return
    v.ensure('identifier of the source model', text_is(c.attrib[G + 'id'], s.text(0, 'source_model_id')))
    v.ensure('one configuration element and one element per source', ops.len_(c.children) == s.n + 1)
    f = c.children[0] if c.children else None
    ok = isinstance(f, Elem) and f.tag == N + 'config' and not f.children and not f.attrib and f.text is None
    v.ensure('the configuration element comes first', ok)
    if not ok:
        return
    e = lambda i: sym.force(item(c.children[1:], i))
    v.ensure_all('the elements of the sources, in order', s.n, lambda i: tree_is(e(i), s.element(i)))


def source_is(a, b):
    """equal in every attribute"""
    r = [text_is(getattr(a, k), getattr(b, k)) for k in TEXTS[:5]]
    p, q = a.area_boundary, b.area_boundary
    r.append(text_is(p.srs_name, q.srs_name))
    r.append(num(ops.len_(p.pos_list)) == num(ops.len_(q.pos_list)))
    r.append(forall(ops.len_(q.pos_list), lambda j: land(
        num(item(p.pos_list, j).lon) == num(item(q.pos_list, j).lon),
        num(item(p.pos_list, j).lat) == num(item(q.pos_list, j).lat))))
    p, q = a.rupture_rate_model, b.rupture_rate_model
    for k in ('strike', 'dip', 'rake'):
        r.append(num(getattr(p, k)) == num(getattr(q, k)))
    p, q = p.truncated_gutenberg_richter, q.truncated_gutenberg_richter
    for k in ('a_value', 'b_value', 'min_magnitude', 'max_magnitude'):
        r.append(num(getattr(p, k)) == num(getattr(q, k)))
    r.append(text_is(p.type_tgr, q.type_tgr))
    p, q = a.rupture_depth_dist, b.rupture_depth_dist
    r.append(text_is(p.magnitude.type_mag, q.magnitude.type_mag))
    for p, q in ((p.magnitude.values, q.magnitude.values), (p.depth, q.depth)):
        r.append(num(ops.len_(p)) == num(ops.len_(q)))
        r.append(forall(ops.len_(q), lambda j, p=p, q=q: num(item(p, j)) == num(item(q, j))))
    r.append(num(a.hypocentral_depth) == num(b.hypocentral_depth))
    return land(*r)


def document(x, s, name, others=True):
    root, model = Elem(N + 'nrml'), Elem(N + 'sourceModel')
    root.attrib[G + 'id'], model.attrib[G + 'id'] = s.text(0, 'nrml_id'), s.text(0, 'source_model_id')
    model.up = Up(root)
    before = [Elem(N + 'config')]
    after = []
    if others:
        for l in (before, after):
            o = Elem(N + 'simpleFaultSource', {G + 'id': 'another kind of source'})
            d = Elem(N + 'dip')
            d.text, d.up = '45', Up(o)
            o.children.append(d)
            l.append(o)
    for e in before + after:
        e.up = Up(model)
    root.children = [model]
    model.children = before + after
    x.document(name, root, events(None, s, model, before, after))


def read(v):
    x = world(v)
    m = v.load(SM)
    s = Sources(v)
    name = v.str('file name')
    document(x, s, name)
    r = ops.seq_list(v.load(RD).NRMLReader(name, v.str('schema')).read())
    v.ensure('one source per area source element', num(ops.len_(r)) == s.n)
    v.ensure_all('the sources in document order, equal in every attribute', s.n, lambda i: source_is(ops.seq_index(r, i), s.source(m, i)))


def job(v):
    x = world(v)
    m = v.load(SM)
    s = Sources(v)
    j = v.load(JOBS)
    c = context(v)
    document(x, s, ops.getitem(c.config, 'source_model_file'))
    j.read_source_model(c)
    r = c.sm_definitions
    v.ensure('one source per area source element', num(ops.len_(r)) == s.n)
    v.ensure_all('the sources in document order, equal in every attribute', s.n, lambda i: source_is(ops.seq_index(r, i), s.source(m, i)))


RF = [RD + ':' + f for f in ('NRMLReader.__init__', 'NRMLReader.read', '_parse_area_source', '_parse_area_boundary', '_parse_rupture_rate_model',
                             '_parse_rupture_depth_distrib')]
UNITS = [Unit('C23', 'AreaSourceWriter.serialize', write, [WR + ':' + f for f in (
    'AreaSourceWriter.__init__', 'AreaSourceWriter.serialize', '_write_header', '_write_body', '_area_source_elem', '_write_area_boundary',
    '_write_rupture_rate_model', '_write_truncated_guten_richter', '_write_rupture_depth_distrib')]),
         Unit('C23', 'NRMLReader.read', read, RF), Unit('C23', 'read_source_model', job, RF + [JOBS + ':read_source_model'])]
