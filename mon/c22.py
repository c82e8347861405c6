"""Merging sets in the target exactly what the source has, keeps the rest, and shares nothing."""
import copy
import re
from . import gen, mergemodel as M, schema as S
from .c07 import norm
ID = 'C22'
RULE = ('pairs of random elements of the same class, parsed with foreign and misplaced content or built through the API, of different density; '
        'distinct by both texts')
CASES = {'quick': 64000, 'thorough': 250000}
MIN = {'checks': 60000, 'elements': 4000, 'fields': 3000, 'cross': 500, 'nested': 3000}
ROOTS = sorted(set(S.CLASSES) - {'IconStyleIcon'})
FOREIGN = ['<foo a="1">t<bar/></foo>', '<Folder><name>decoy</name><visibility>0</visibility></Folder>', '<Point><coordinates>5,6</coordinates></Point>',
           '<LookAt><longitude>77</longitude></LookAt>']
TEXTY = ('Coordinates', 'Snippet', 'LinkSnippet', 'SimpleData')
CROSS = [('LookAt', 'Camera'), ('Camera', 'LookAt'), ('LatLonBox', 'LatLonAltBox'), ('LineStyle', 'PolyStyle'), ('Placemark', 'Folder'),
         ('Folder', 'NetworkLink'), ('GroundOverlay', 'ScreenOverlay'), ('Point', 'LineString'), ('Icon', 'Link'), ('Location', 'LookAt')]


def case(w, rng, i):
    if i < 2:
        return probe(w, i)
    if rng.random() < 0.12:
        return cross(w, rng)
    cls = rng.choice(ROOTS) if rng.random() < 0.6 else rng.choice(['Placemark', 'Document', 'Style', 'Folder', 'NetworkLink', 'PhotoOverlay', 'GxTrack', 'Model'])
    dens = rng.choice([0.15, 0.4, 0.7, 1.0])
    src = gen.G(rng, gen.many(rng, [4, 15, 40], (200,), 0.01), dens).node(cls)
    dst = gen.G(rng, gen.many(rng, [4, 15, 40], (200,), 0.01), rng.choice([0.15, 0.4, 0.7, 1.0])).node(cls)
    for n in list(src.walk()) + list(dst.walk()):
        if rng.random() < 0.1 and n.cls not in TEXTY:
            n.uattrs[rng.choice(['ua', 'ub', 'x:uc'])] = gen.g_id(rng)
            if rng.random() < 0.03:
                n.uattrs.update({'m%d' % rng.randrange(99): gen.g_id(rng) for _ in range(rng.choice([12, 40]))})
    deep = rng.random() < 0.65
    if deep:
        M.disambiguate(rng, src, dst)
    gen.parsed(src)
    gen.parsed(dst)

    junk = [0]

    def extra(n):
        if rng.random() > (0.4 if n is src else 0.12) or n.cls in TEXTY:
            return []
        t = FOREIGN[0]
        if n is src:
            t = rng.choice(FOREIGN)
            tag = t[1:].split('>')[0]
            for f in S.CLASSES[n.cls].fields:
                if f.kind in 'CA' and any(S.CLASSES[m].xml == tag for m in S.members(f.arg)):
                    t = FOREIGN[0]      # a legal child here
        junk[0] += 1
        return [[t]]
    st = gen.Writer(rng, extra=extra).xml(src)
    dt = gen.Writer(rng).xml(dst)
    ops = [['parse', 'a', st, 'plain'], ['parse', 'b', dt, 'plain'], ['ser', 'a', 'raw'], ['dump', 'a'],
           ['mergeelements' if deep else 'mergefields', 'a', 'b'], ['ser', 'a', 'raw'], ['dump', 'a'], ['dump', 'b'], ['ptrs', 'a', 'b'], ['parents', 'b'],
           ['mergeelements', 'b', 'b'] if not deep else ['mergefields', 'b', 'b']]
    o = w.do(ops)
    w.eq([o[0][0], o[1][0]], [b'ok', b'ok'], 'parse', 'both accepted')
    want = copy.deepcopy(dst)
    if deep:
        M.elements(src, want)
    else:
        M.fields(src, want)
    w.eq(o[5:7], o[2:4], 'source', 'the source after merging')
    w.eq(clean(o[7][0]), clean(gen.dump(want).encode('latin1')), 'elements' if deep else 'fields', 'merge of %s into %s' % (st[:300], dt[:300]))
    w.eq(o[8][2], b'0', 'sharing', 'elements held by both')
    w.check(o[9][1] == b'0' and o[9][2] == b'0', 'parents', 'parents in the target: %r' % (o[9],))
    w.count('elements' if deep else 'fields')
    w.count('nested', sum(1 for _ in want.walk()) - 1)
    w.count('foreign', junk[0])
    w.seen((st, dt, deep))
    w.sample({'source': st[:300], 'target': dt[:300], 'deep': deep})


UNK = re.compile(rb' unknown="(?:[^"\\]|\\.)*"')


def clean(d):
    # foreign content of the source below the top level comes along only in children which are copied whole
    return norm(UNK.sub(b'', d))


def cross(w, rng):
    """Fields known to both classes are set, whatever the class."""
    a, b = rng.choice(CROSS)
    src = gen.parsed(gen.G(rng, 1, 0.7).node(a))
    dst = gen.parsed(gen.G(rng, 1, 0.5).node(b))
    for n in (src, dst):
        for fl in S.CLASSES[n.cls].fields:
            if fl.kind in 'CA':
                n.f.pop(fl.acc, None)
    st, dt = gen.Writer(rng).xml(src), gen.Writer(rng).xml(dst)
    common = [(fl, g) for fl in S.CLASSES[a].fields for g in S.CLASSES[b].fields
              if fl.name == g.name and fl.kind == g.kind and fl.attr == g.attr and fl.kind in 'sbdiec']
    only = [g for g in S.CLASSES[b].fields if g.kind in 'sbdiec' and g.name not in [f.name for f in S.CLASSES[a].fields]]
    ops = [['parse', 'a', st, 'plain'], ['parse', 'b', dt, 'plain'], ['dump', 'b'], ['mergefields', 'a', 'b']]
    for fl, g in common:
        ops += [['has', 'a', fl.acc], ['get', 'a', fl.acc], ['has', 'b', g.acc], ['get', 'b', g.acc]]
    k0 = len(ops)
    for g in only:
        ops += [['has', 'b', g.acc], ['get', 'b', g.acc]]
    ops += [['parse', 'c', dt, 'plain']]
    for fl, g in common:
        ops += [['has', 'c', g.acc], ['get', 'c', g.acc]]
    k1 = k0 + 2 * len(only) + 1
    for g in only:
        ops += [['has', 'c', g.acc], ['get', 'c', g.acc]]
    o = w.do(ops)
    for k, (fl, g) in enumerate(common):
        ah, av, bh, bv = (x[0] for x in o[4 + 4 * k:8 + 4 * k])
        ch, cv = (x[0] for x in o[k1 + 2 * k:k1 + 2 * k + 2])
        if ah == b'1':
            same = float('%.15g' % float(av)) == float(bv) if fl.kind == 'd' else av == bv
            w.check(bh == b'1' and same, 'cross:set', '%s of %s into %s: %r became %r' % (fl.name, a, b, av, bv))
        else:
            w.eq((bh, bv), (ch, cv), 'cross:kept', '%s of %s, not set in %s' % (g.name, b, a))
    for k, g in enumerate(only):
        w.eq(o[k0 + 2 * k:k0 + 2 * k + 2], o[k1 + 2 * len(common) + 2 * k:k1 + 2 * len(common) + 2 * k + 2], 'cross:other', '%s of %s' % (g.name, b))
    w.count('cross')
    w.seen((st, dt))


def probe(w, i):
    if i == 0:      # documented: array elements are appended
        o = w.do([['parse', 'a', '<Folder><Placemark><name>x</name></Placemark></Folder>', 'plain'],
                  ['parse', 'b', '<Folder><Placemark><name>y</name></Placemark></Folder>', 'plain'], ['mergeelements', 'a', 'b'], ['ser', 'b', 'raw']])
        w.eq(o[3][0], b'<Folder><Placemark><name>y</name></Placemark><Placemark><name>x</name></Placemark></Folder>', 'probe:array-append',
             'an array element of the source is appended to the array of the target (merge.h)')
