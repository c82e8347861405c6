"""Every element is of exactly its own kinds: casts, names, the element table, and nothing in place of an element."""
from . import gen, schema as S
ID = 'C33'
RULE = ('every element class, made by class, by name and by parsing, alone and inside random documents, through every cast; every element and enumeration name of the schema and damaged names; '
        'nothing in place of an element, for every class; distinct by class and by document')
CASES = {'quick': 60000, 'thorough': 300000}
MIN = {'identifiers': 20, 'checks': 200000, 'elements': 120000, 'names': 4000, 'enums': 3500, 'nothing': 6000}
# class -> the class it is a kind of, where that has a cast of its own
UP = {}
for _b, _cs in {
        'Object': 'AbstractLatLonBox AbstractView SubStyle Feature Geometry StyleSelector TimePrimitive SchemaData Data Location Orientation Scale Alias ResourceMap GxPlaylist '
                  'GxTourPrimitive ItemIcon Link Icon Url IconStyleIcon ViewVolume ImagePyramid GxLatLonQuad Lod Region Schema Pair',
        'AbstractLatLonBox': 'LatLonBox LatLonAltBox', 'AbstractView': 'LookAt Camera', 'SubStyle': 'ColorStyle BalloonStyle ListStyle',
        'ColorStyle': 'IconStyle LabelStyle LineStyle PolyStyle', 'Feature': 'Container Overlay Placemark NetworkLink GxTour', 'Container': 'Document Folder',
        'Overlay': 'GroundOverlay ScreenOverlay PhotoOverlay', 'Geometry': 'Point LineString LinearRing Polygon MultiGeometry Model GxTrack GxMultiTrack',
        'StyleSelector': 'Style StyleMap', 'TimePrimitive': 'TimeSpan TimeStamp', 'TimeSpan': 'GxTimeSpan', 'TimeStamp': 'GxTimeStamp',
        'GxTourPrimitive': 'GxAnimatedUpdate GxFlyTo GxWait GxSoundCue GxTourControl', 'SimpleField': 'GxSimpleArrayField'}.items():
    for _c in _cs.split():
        UP[_c] = _b
NOCAST = {'Url'}                # no cast of its own
CL = sorted(S.CLASSES)
ROOTS = ['kml', 'Document', 'Folder', 'Placemark', 'Style', 'gx:Tour']


def kinds(cls):
    out = set()
    c = cls
    while c:
        if c not in NOCAST:
            out.add(c)
        c = UP.get(c)
    return out


def casts(w, cls, got, what):
    w.count('elements')
    w.eq(sorted(got.decode().split()), sorted(kinds(cls)), 'cast:' + cls, 'casts of %s %s which succeed' % (what, cls))


def case(w, rng, i):
    r = rng.random()
    if i < 5 * len(CL) or r < 0.3:
        single(w, rng, CL[i % len(CL)])
    elif r < 0.5:
        names(w, rng)
    else:
        document(w, rng)


def single(w, rng, cls):
    c = S.CLASSES[cls]
    o = w.do([['newel', 'x', cls], ['casts', 'x'], ['casts', 'none'], ['newname', 'y', c.xml], ['casts', 'y']])
    w.eq(o[1][0].decode(), cls, 'class', 'class of a new %s' % cls)
    casts(w, cls, o[1][1], 'a new')
    w.eq(o[2], [b'', b''], 'null', 'casts of nothing')
    by = S.BYXML[c.xml].name
    w.eq(o[3], [b'ok'], 'byname', 'making a %s by name' % c.xml)
    w.eq(o[4][0].decode(), by, 'byname', 'class of a %s made by name' % c.xml)
    casts(w, by, o[4][1], 'a named')
    # a filled one: nothing in place of an element changes nothing
    w.count('nothing')
    e = gen.G(rng, 6, 0.3).node(cls)
    t = gen.Writer(rng).xml(e)
    if by != cls or cls == 'Coordinates':       # coordinates takes its text when it is told of its end
        return
    o = w.do([['parse', 'z', t, 'plain'], ['ser', 'z', 'raw'], ['addnull', 'z'], ['ser', 'z', 'raw'], ['casts', 'z'], ['addnull', 'x'], ['ser', 'x', 'raw'], ['newel', 'n', cls], ['ser', 'n', 'raw']])
    w.eq(o[0][0], b'ok', 'parse', t)
    w.eq(o[3], o[1], 'nothing', 'after adding nothing to %s' % t)
    w.eq(o[6], o[8], 'nothing', 'after adding nothing to an empty %s' % cls)
    casts(w, cls, o[4][1], 'a parsed')
    w.seen(t)


def names(w, rng):
    w.count('names')
    c = S.CLASSES[rng.choice(CL)]
    n = rng.choice([c.xml, rng.choice([f.name for f in c.fields if not f.attr and not f.group] or [c.xml])])
    r = rng.random()
    if r < 0.5:
        k = rng.randrange(len(n))
        n = rng.choice([n[:k], n[k + 1:], n.lower(), n.upper(), n + ' ', ' ' + n, n + 's', 'gx:' + n, '', '?', n[:k] + 'q' + n[k + 1:]])
    known = S.BYXML.get(n)
    f = [x for c2 in S.CLASSES.values() for x in c2.fields if not x.attr and not x.group and x.name == n and x.kind != 'T']
    o = w.do([['newname', 'x', n], ['casts', 'x'], ['elname', n]])
    if known:
        w.eq(o[1][0].decode(), known.name, 'byname', 'an element made by the name %r' % n)
        w.eq([x.decode() for x in o[2]], ['complex', n], 'name', 'kind and name of %r' % n)
    elif f:
        w.eq(o[0], [b'null'], 'byname', 'an element made by the field name %r' % n)
        w.eq([x.decode() for x in o[2]], ['simple', n], 'name', 'kind and name of the field %r' % n)
    elif n not in OTHER:
        w.eq((o[0], o[2]), ([b'null'], [b'unknown', b'']), 'byname', 'an element made by the unknown name %r' % n)
    en = rng.choice(sorted(S.ENUMS))
    if en != 'units':
        w.count('enums')
        vs = S.ENUMS[en]
        v = rng.choice(vs + [rng.choice(vs)[:-1], rng.choice(vs).upper(), '', rng.choice(vs) + ' ', 'no'])
        k = rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, 100, -100])
        o = w.do([['elenum', en, v, str(k)]])[0]
        at = vs.index(v) if v in vs else -1
        w.eq([x.decode() for x in o], [str(at), v if at >= 0 else '', vs[k] if 0 <= k < len(vs) else ''], 'enum', 'enumeration %s, %r and item %d' % (en, v, k))
    if rng.random() < 0.02:
        w.count('identifiers')
        o = [x.decode('latin1') for x in w.do([['typenames']])[0]]
        for a, b in zip(o[::2], o[1::2]):
            w.eq(b, a, 'identifier', 'name of the identifier %s' % a)
    w.seen((n, en))


# known to the schema table, not part of any class above
OTHER = {'AbstractLatLonBox', 'AbstractView', 'BasicLink', 'ColorStyle', 'Container', 'Feature', 'Geometry', 'Object', 'Overlay', 'StyleSelector', 'SubStyle', 'TimePrimitive',
         'UpdateOperation', 'Vec2', 'Field', 'SnippetCommon', 'gx:TourPrimitive', 'atom:common', 'Metadata', 'snippet', 'text',
         'gx:x', 'gx:y', 'gx:w', 'gx:h', 'gx:value', 'gx:interpolate', 'units', 'maxLength', 'altitudeModeGroup', 'maxSnippetLines', 'IconStyleIcon', 'atom:label', 'atom:term',
         'atom:scheme', 'gx:AbstractTourPrimitiveGroup'}


def document(w, rng):
    e = gen.G(rng, 30, 0.4).node(rng.choice(['Document', 'Folder', 'Placemark', 'Style', 'StyleMap', 'GxTour', 'Kml', 'Update', 'NetworkLinkControl', 'AtomFeed', 'Region', 'Schema']))
    t = gen.Writer(rng).xml(e)
    o = w.do([['parse', 'z', t, 'plain'], ['castwalk', 'z'], ['clone', 'z', 'c'], ['castwalk', 'c']])
    w.eq(o[0][0], b'ok', 'parse', t)
    for k, v in zip(o[1][::2], o[1][1::2]):
        casts(w, k.decode(), v, 'a document\'s')
    w.eq(o[3], o[1], 'clone', 'kinds in the copy of %s' % t)
    w.seen(t)
    w.sample(t)
