import copy
import os
from .base import *

RULE = ('1 to 5 area sources of one source model, with 4 to 9 boundary points, depth distributions of 1 to 5 values, '
        'numbers of any size within the schema; names with markup characters and non-ASCII letters; documents written by hand with other '
        'kinds of sources between the area sources, comments, line breaks and blanks')
REGIONS = ['Active Shallow Crust', 'Stable Shallow Crust', 'Subduction Interface', 'Subduction IntraSlab', 'Volcanic']
N = 'http://openquake.org/xmlns/nrml/0.3'
G = 'http://www.opengis.net/gml'


def number(g, lo, hi):
    return g.pick(float(lo), float(hi), round(g.real(lo, hi), 1), g.real(lo, hi), g.real(lo, hi), float(int(g.real(lo, hi))),
                  lo + (hi - lo) * 1e-7 * g.r.random() if lo <= 0 else g.real(lo, hi))


def text(g):
    return g.pick(g.word(), 'Quito', 'A & B <c>', 'zone "1"', 'Zürich', 'a b  c', "d'e", 'MTK', g.word(20))


def source(g, k, ids):
    i = g.word() + '_' + str(k)
    ids.append(i)
    p = lambda: [number(g, -180, 180), number(g, -90, 90)]
    n = g.pick(4, 4, 5, g.int(4, 9))
    pts = [p() for _ in range(n)]
    if g.chance(.3):
        pts[-1] = pts[0]
    if g.chance(.1):
        pts[1] = pts[0]
    m = g.int(1, 5)
    return {'id': i, 'name': text(g), 'region': g.pick(*REGIONS), 'srs': g.pick('urn:ogc:def:crs:EPSG::4326', 'epsg:4326', 'EPSG:4979'),
            'points': pts, 'tgr': g.pick('ML', 'Mw'), 'gr': [number(g, -2, 9), number(g, 0, 3), number(g, 0, 6), number(g, 5, 9.5)],
            'sdr': [number(g, 0, 360), number(g, 0, 90), number(g, -180, 180)], 'mtype': g.pick('ML', 'Mw'),
            'mags': [number(g, 3, 9) for _ in range(m)], 'depths': [number(g, 0, 7e5) for _ in range(m if g.chance(.7) else g.int(1, 5))],
            'hypo': number(g, 0, 7e5)}


def gen(g):
    ids = []
    return {'nrml': 'n-' + g.word(), 'model': 'm-' + g.word(), 'sources': [source(g, k, ids) for k in range(g.pick(1, 2, 3, g.int(1, 6)))],
            'others': [g.pick('', '', '', 'comment', 'point', 'fault') for _ in range(7)], 'blank': g.pick(' ', ' ', '\n', '\n   ', '  '),
            'fmt': g.pick('%r', '%r', '%.17g', '%.16e'), 'sub': g.chance(.1), 'after': g.chance(.3)}


def build(case, s):
    import mtoolkit.source_model as m
    a = m.AreaSource()
    a.nrml_id, a.source_model_id, a.area_source_id = case['nrml'], case['model'], s['id']
    a.name, a.tectonic_region = s['name'], s['region']
    a.area_boundary = m.AREA_BOUNDARY(s['srs'], [m.POINT(*p) for p in s['points']])
    a.rupture_rate_model = m.RUPTURE_RATE_MODEL(m.TRUNCATED_GUTEN_RICHTER(*(s['gr'] + [s['tgr']])), *s['sdr'])
    a.rupture_depth_dist = m.RUPTURE_DEPTH_DISTRIB(m.MAGNITUDE(s['mtype'], list(s['mags'])), list(s['depths']))
    a.hypocentral_depth = s['hypo']
    return a


def facts(a):
    b, r, d = a.area_boundary, a.rupture_rate_model, a.rupture_depth_dist
    t = r.truncated_gutenberg_richter
    return [('nrml id', a.nrml_id), ('source model id', a.source_model_id), ('area source id', a.area_source_id), ('name', a.name),
            ('tectonic region', a.tectonic_region), ('srs name', b.srs_name), ('boundary points', [(p.lon, p.lat) for p in b.pos_list]),
            ('a value', t.a_value), ('b value', t.b_value), ('min magnitude', t.min_magnitude), ('max magnitude', t.max_magnitude),
            ('type of the recurrence', t.type_tgr), ('strike', r.strike), ('dip', r.dip), ('rake', r.rake),
            ('type of the magnitudes', d.magnitude.type_mag), ('magnitudes', list(d.magnitude.values)), ('depths', list(d.depth)),
            ('hypocentral depth', a.hypocentral_depth)]


def same_source(a, b, what):
    for (k, x), (k, y) in zip(facts(a), facts(b)):
        need(x == y and isinstance(x, str) == isinstance(y, str), '%s: %s is %s instead of %s', what, k, short(x), short(y))
    need(a == b and not a != b, '%s: equal attributes, not equal', what)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def element(case, s, tag='areaSource'):
    f = lambda x: case["fmt"] % float(x)
    w = lambda l: case['blank'].join(f(x) for x in l)
    where = '''<areaBoundary><gml:Polygon><gml:exterior><gml:LinearRing srsName="%s"><gml:posList>%s</gml:posList></gml:LinearRing>
        </gml:exterior></gml:Polygon></areaBoundary>''' % (esc(s['srs']), w([x for p in s['points'] for x in p]))
    if tag == 'pointSource':
        where = '<location><gml:Point srsName="epsg:4326"><gml:pos>1.0 2.0</gml:pos></gml:Point></location>'
    return '''<%s gml:id="%s"><gml:name>%s</gml:name><tectonicRegion>%s</tectonicRegion>%s
      <ruptureRateModel><truncatedGutenbergRichter type="%s"><aValueCumulative>%s</aValueCumulative><bValue>%s</bValue>
        <minMagnitude>%s</minMagnitude><maxMagnitude>%s</maxMagnitude></truncatedGutenbergRichter>
        <strike>%s</strike> <dip>%s</dip><rake>%s</rake></ruptureRateModel>
      <ruptureDepthDistribution><magnitude type="%s">%s</magnitude><depth>%s</depth></ruptureDepthDistribution>
      <hypocentralDepth>%s</hypocentralDepth>
    </%s>''' % ((tag, s['id'], esc(s['name']), s['region'], where, s['tgr']) + tuple(f(x) for x in s['gr'] + s['sdr']) + (
        s['mtype'], w(s['mags']), w(s['depths']), f(s['hypo']), tag))


FAULT = '''<simpleFaultSource gml:id="f.%d"><gml:name>fault</gml:name><tectonicRegion>Volcanic</tectonicRegion><rake>90.0</rake>
    <truncatedGutenbergRichter><aValueCumulative>3.6</aValueCumulative><bValue>1.0</bValue><minMagnitude>5.0</minMagnitude>
    <maxMagnitude>7.0</maxMagnitude></truncatedGutenbergRichter><simpleFaultGeometry gml:id="g.%d"><faultTrace><gml:LineString srsName="epsg:4326">
    <gml:posList>19.5 40.1 1.0 19.4 40.2 1.0</gml:posList></gml:LineString></faultTrace><dip>37.5</dip>
    <upperSeismogenicDepth>1.0</upperSeismogenicDepth><lowerSeismogenicDepth>12.0</lowerSeismogenicDepth></simpleFaultGeometry>
    </simpleFaultSource>'''


def handmade(case):
    out = []
    o = list(case['others'])
    for k in range(len(case['sources']) + 1):
        if o[k] == 'comment':
            out.append('<!-- <areaSource/> -->')
        elif o[k] == 'point':
            out.append(element(case, dict(case['sources'][0], id='p.%d' % k), 'pointSource'))
        elif o[k] == 'fault':
            out.append(FAULT % (k, k))
        if k < len(case['sources']):
            out.append(element(case, case['sources'][k]))
    return '''<?xml version="1.0" encoding="utf-8"?>
<nrml xmlns:gml="%s" xmlns="%s" gml:id="%s">
  <sourceModel gml:id="%s"><config/>
    %s
  </sourceModel>
</nrml>
''' % (G, N, case['nrml'], case['model'], '\n'.join(out))


def check_read(path, want, J, W, what):
    from nrml.reader import NRMLReader
    got = list(NRMLReader(path, J.NRML_SCHEMA_PATH).read())
    need(len(got) == len(want), '%s: %d sources are read instead of %d', what, len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        same_source(a, b, '%s: source %d' % (what, i))
    c = W.Context()
    c.config = {'source_model_file': path}
    J.read_source_model(c)
    need(len(c.sm_definitions) == len(want), '%s: the job reads %d sources instead of %d', what, len(c.sm_definitions), len(want))
    for i, (a, b) in enumerate(zip(c.sm_definitions, want)):
        same_source(a, b, '%s, by the job: source %d' % (what, i))


def run(case):
    import mtoolkit.jobs as J
    import mtoolkit.workflow as W
    from lxml import etree
    from nrml.writer import AreaSourceWriter
    for f in os.listdir('.'):
        os.remove(f)
    schema = etree.XMLSchema(etree.parse(J.NRML_SCHEMA_PATH))
    want = [build(case, s) for s in case['sources']]
    src = copy.deepcopy(want)
    path = 'out.xml'
    if case['after']:
        AreaSourceWriter(path).serialize([copy.deepcopy(want[0]) for _ in range(8)])
    AreaSourceWriter(path).serialize(tuple(src) if case['sub'] else src)
    for i, (a, b) in enumerate(zip(src, want)):
        same_source(a, b, 'source %d after writing' % i)
    need(len(src) == len(want), 'the sequence of sources is modified')
    doc = etree.parse(path)
    need(schema.validate(doc), 'the document does not validate: %s', str(schema.error_log)[:300])
    els = doc.getroot().findall('.//{%s}areaSource' % N)
    need([e.get('{%s}id' % G) for e in els] == [s['id'] for s in case['sources']], 'area source elements %s instead of %s',
         [e.get('{%s}id' % G) for e in els], [s['id'] for s in case['sources']])
    check_read(path, want, J, W, 'read back')
    with open('hand.xml', 'wb') as f:
        f.write(handmade(case).encode('utf-8'))
    if not schema.validate(etree.parse('hand.xml')):
        raise RuntimeError('the document made by hand does not validate: %s' % schema.error_log)
    check_read('hand.xml', want, J, W, 'document')
