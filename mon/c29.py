"""The convenience functions build, find and save exactly the KML they promise."""
import math
import os
from . import gen, kmz, reader
from . import schema as S
from .c05 import tidy
ID = 'C29'
RULE = ('random arguments for every constructor function, histories of extended-data calls, random paths simplified at random tolerances, generated documents through '
        'the feature saver and the element counter, archives with present and missing link targets, generated Atom feeds and recorded HTTP posts; distinct by input')
CASES = {'quick': 96000, 'thorough': 600000}
MIN = {'checks': 120000, 'built': 8000, 'datacalls': 20000, 'circles': 1500, 'paths': 1500, 'saved': 2000, 'counted': 2000, 'archives': 400, 'feeds': 1500, 'entries': 800, 'posts': 2000}
R = 6366710


def num(rng, a=-180, b=180):
    r = rng.random()
    if r < 0.2:
        return float(rng.choice([a, b, 0, 1, -1 if a < 0 else 1, (a + b) // 2]))
    if r < 0.4:
        return round(rng.uniform(a, b), rng.choice([0, 1, 3]))
    return float('%.14g' % rng.uniform(a, b))


def f(x):
    return '%.15g' % x


def text(rng, n=40):
    return ''.join(c for c in gen.g_string(rng)[:n] if c not in '\r')


def esc(s):
    return gen.esc_text(s)


def el(tag, v):
    return '<%s>%s</%s>' % (tag, esc(v) if isinstance(v, str) else f(v), tag)


def case(w, rng, i):
    r = rng.random()
    for p, fn in ((0.3, build), (0.45, data), (0.53, circle), (0.62, path), (0.72, saver), (0.8, counter), (0.84, links), (0.87, entries), (0.94, feed), (1.1, posts)):
        if r < p:
            return fn(w, rng)


MODES = ['clampToGround', 'relativeToGround', 'absolute']


def point(lat, lon, alt=None):
    return '<Point><coordinates>%s,%s%s</coordinates></Point>' % (f(lon), f(lat), '' if alt is None else ',' + f(alt))


def build(w, rng):
    w.count('built')
    lat, lon, alt = num(rng, -90, 90), num(rng), num(rng, -1000, 100000)
    k = rng.randrange(12)
    name = text(rng)
    pre = []
    if k in (0, 1):
        h, t, x, m = num(rng, 0, 360), num(rng, 0, 180), num(rng, -180, 9999), rng.randrange(3)
        op = [['mkcamera', 'mklookat'][k], 'x', f(lat), f(lon), f(alt), f(h), f(t), f(x), str(m)]
        tag = ['Camera', 'LookAt'][k]
        exp = '<%s>%s</%s>' % (tag, el('longitude', lon) + el('latitude', lat) + el('altitude', alt) + el('heading', h) + el('tilt', t) +
                               el(['roll', 'range'][k], x) + '<altitudeMode>%s</altitudeMode>' % MODES[m], tag)
    elif k == 2:
        op, exp = ['mkpoint', 'x', f(lat), f(lon)], point(lat, lon)
    elif k == 3:
        if rng.random() < 0.5:
            alt = None
        op, exp = ['mkpointv', 'x', f(lon), f(lat)] + ([f(alt)] if alt is not None else []), point(lat, lon, alt)
    elif k == 4:
        kv = [('lat', f(lat)), ('lon', f(lon)), ('ele', '5'), ('Lat', '1'), ('latitude', '2')][:rng.choice([1, 2, 2, 3, 5])]
        if rng.random() < 0.2:
            kv = kv[1:]
        if kv and rng.random() < 0.1:
            kv[0] = (kv[0][0], rng.choice(['', ' ']))
            lat, lon = 0.0 if kv[0][0] == 'lat' else lat, 0.0 if kv[0][0] == 'lon' else lon
        rng.shuffle(kv)
        op = ['mkpointatts', 'x'] + [v for p in kv for v in p]
        if kv and rng.random() < 0.1:
            op.append('odd')
        exp = point(lat, lon) if {'lat', 'lon'} <= {p[0] for p in kv} else None
    elif k == 5:
        op, exp = ['mkpm', 'x', name, f(lat), f(lon)], '<Placemark>%s%s</Placemark>' % (el('name', name), point(lat, lon))
    elif k == 6:
        d = '%04d-%02d-%02d' % (rng.randrange(1900, 2100), rng.randrange(1, 13), rng.randrange(1, 29))
        t = '%02d:%02d:%02dZ' % (rng.randrange(24), rng.randrange(60), rng.randrange(60))
        s = gen.g_id(rng)
        op = ['mkpmts', 'x', f(lat), f(lon), d + 'T' + t, s]
        exp = ('<Placemark><name>%s</name><TimeStamp><when>%sT%s</when></TimeStamp><styleUrl>#%s</styleUrl><ExtendedData><Data name="date"><value>%s</value></Data>'
               '<Data name="time"><value>%s</value></Data></ExtendedData>%s</Placemark>' % (t[:-1], d, t, s, d, t[:-1], point(lat, lon)))
    elif k == 7:
        v = [num(rng, -90, 90), num(rng, -90, 90), num(rng), num(rng), num(rng, 0, 1000), num(rng, -1, 5000)]
        op = ['mkregion', 'x'] + [f(x) for x in v]
        exp = '<Region><LatLonAltBox>%s</LatLonAltBox><Lod>%s</Lod></Region>' % (''.join(el(n, x) for n, x in zip(('north', 'south', 'east', 'west'), v)),
                                                                             ''.join(el(n, x) for n, x in zip(('minLodPixels', 'maxLodPixels'), v[4:])))
    elif k == 8:
        v = rng.choice(['<LookAt id="v">%s%s</LookAt>' % (el('longitude', lon), el('heading', alt)), '<Camera id="v">%s%s</Camera>' % (el('latitude', lat), el('roll', lon))])
        dur = num(rng, 0, 100)
        fx = '<gx:FlyTo xmlns:gx="http://www.google.com/kml/ext/2.2">%s%s</gx:FlyTo>' % (el('gx:duration', dur), v)
        r = rng.random()
        if r < 0.5:
            pre = [['parse', 'v', v, 'plain']]
            op, exp = ['mkflyto', 'x', 'v', f(dur)], fx
        elif r < 0.8:
            pre = [['parse', 'v', '<Placemark>%s%s</Placemark>' % (v, point(lat, lon)), 'plain']]
            op, exp = ['mkflytof', 'x', 'v', f(dur)], fx
        else:
            pre = [['parse', 'v', rng.choice(['<Placemark/>', '<Folder><Placemark><name>x</name></Placemark></Folder>', '<NetworkLink/>']), 'plain']]
            op, exp = ['mkflytof', 'x', 'v', f(dur)], None
    elif k == 9:
        op, exp = ['mkwait', 'x', f(alt)], '<gx:Wait xmlns:gx="http://www.google.com/kml/ext/2.2">%s</gx:Wait>' % el('gx:duration', alt)
    elif k == 10:
        lr = '<LinearRing id="r"><coordinates>%s</coordinates></LinearRing>' % ' '.join('%s,%s' % (f(num(rng)), f(num(rng, -90, 90))) for _ in range(rng.randrange(6)))
        pre = [['parse', 'v', lr, 'plain']]
        op, exp = ['mkpoly', 'x', 'v'], '<Placemark><Polygon><outerBoundaryIs>%s</outerBoundaryIs></Polygon></Placemark>' % lr
    else:
        s, dur = gen.g_id(rng), num(rng, 0, 50)
        op = ['mkanim', 'x', s, f(lon), f(lat), f(alt), f(dur)]
        exp = ('<gx:AnimatedUpdate xmlns:gx="http://www.google.com/kml/ext/2.2">%s<Update><targetHref></targetHref><Change><Placemark targetId="%s">%s</Placemark></Change></Update>'
               '</gx:AnimatedUpdate>' % (el('gx:duration', dur), s, point(lat, lon, alt)))
    o = w.do(pre + [op, ['dump', 'x']] + ([['parse', 'y', exp, 'plain'], ['dump', 'y']] if exp is not None else []))
    q = len(pre)
    if exp is None:
        w.eq(o[q], [b'null'], 'nothing', 'result of %r' % op)
    else:
        w.eq(o[q + 1], strip_xm(o[q + 3]), 'built', 'result of %r' % op)
    w.seen(op)


def strip_xm(o):
    return [o[0].replace(b' xmlns@gx="http://www.google.com/kml/ext/2.2"', b'')]


def data(w, rng):
    ops = [['newel', 'p', rng.choice(['Placemark', 'Folder', 'Document', 'NetworkLink', 'GroundOverlay'])]]
    names = ['a', 'b', '', 'kml.FeatureScore', 'x y', '<&>', 'caf\u00e9']
    m = []
    exp = [None]
    for _ in range(rng.randrange(3, 20)):
        w.count('datacalls')
        n, v = rng.choice(names), rng.choice([text(rng, 12), str(rng.randrange(-5, 1000))])
        r = rng.random()
        if r < 0.45:
            ops.append(['edadd', 'p', n, v])
            m.append((n, v))
            exp.append(None)
        elif r < 0.55:
            ops.append(['edset', 'p', n, v])
            m = [(n, v)]
            exp.append(None)
        elif r < 0.62:
            s = rng.randrange(-50, 100000)
            ops.append(['score', 'p', str(s)])
            m = [('kml.FeatureScore', str(s))]
            exp.append([b'%d' % s])
        else:
            ops.append(['edget', 'p', n])
            hit = [b for a, b in m if a == n]
            exp.append([b'1', hit[0].encode()] if hit else [b'0', b''])
    ops.append(['cget', 'p', 'extendeddata', 'e'])
    ops.append(['dump', 'e'])
    o = w.do(ops)
    for k, e in enumerate(exp):
        if e is not None:
            w.eq(o[k], e, 'data', 'answer of call %d of %r' % (k, ops))
    if m:
        y = '<ExtendedData>%s</ExtendedData>' % ''.join('<Data name="%s"><value>%s</value></Data>' % (gen.esc_attr(a), esc(b)) for a, b in m)
        q = w.do([['parse', 'y', y, 'plain'], ['dump', 'y']])
        w.eq(o[-1], q[1], 'extendeddata', 'data after %r' % ops)
    w.seen(ops)


def sph(la, lo):
    la, lo = math.radians(la), math.radians(lo)
    return math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)


def angle(a, b):
    u, v = sph(*a), sph(*b)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v)))


def circle(w, rng):
    w.count('circles')
    la, lo = rng.uniform(-80, 80), rng.uniform(-170, 170)
    r, n = rng.choice([1000.0, 50000.0, rng.uniform(500, 800000)]), rng.choice([0, 1, 2, 3, 4, 6, 7, 12, 36, 90, 360, 361, 720])
    o = w.do([['mkcircle', 'x', f(la), f(lo), f(r), str(n)], ['dump', 'x']])
    p = points(o[1][0])
    w.eq(len(p), n, 'circlesize', 'number of points of %d segments' % n)
    lr, ar = math.radians(lo), math.radians(la)
    east = (-math.sin(lr), math.cos(lr), 0.0)
    north = (-math.sin(ar) * math.cos(lr), -math.sin(ar) * math.sin(lr), math.cos(ar))
    for k, q in enumerate(p):
        d = angle((la, lo), (q[1], q[0])) * R
        w.check(abs(d - r) < 1e-3, 'radius', lambda: 'point %d of a circle of radius %r around %r lies at %r' % (k, r, (la, lo), d))
        v = sph(q[1], q[0])
        az = math.degrees(math.atan2(sum(a * b for a, b in zip(v, east)), sum(a * b for a, b in zip(v, north)))) % 360
        ref = 360.0 * k / n
        w.check(min(abs(az - ref), 360 - abs(az - ref)) < 1e-4, 'bearing', lambda: 'point %d of %d of the circle of radius %r around %r is at bearing %r, %r expected' % (k, n, r, (la, lo), az, ref))
    w.seen((la, lo, r, n))


def points(dump):
    import re
    return [[float(x) for x in m.split(b',')[:3]] for m in re.findall(rb'coordinates\+="([^"]*)"', dump)]


def dist(a, b):
    return math.hypot(angle((a[1], a[0]), (b[1], b[0])) * R, a[2] - b[2])


def path(w, rng):
    w.count('paths')
    cur = [rng.uniform(-170, 170), rng.uniform(-80, 80), 0.0]
    pts = []
    for _ in range(rng.choice([0, 1, 2, 5, 20, 60])):
        r = rng.random()
        if r < 0.25 and pts:
            pass
        else:
            s = 10 ** rng.uniform(-6, 0)
            cur = [cur[0] + rng.uniform(-s, s), max(-85, min(85, cur[1] + rng.uniform(-s, s))), cur[2] + rng.choice([0, 0, rng.uniform(-500, 500)])]
        pts.append(list(cur))
    t = rng.choice([0.0, 0.0, 1.0, 10 ** rng.uniform(-2, 6), -1.0])
    keep = []
    for k, p in enumerate(pts):
        if k and t > 0:
            d = dist(pts[k - 1], p)
            if abs(d - t) < 1e-3 * max(1e-3, d):
                w.count('close')
                return
            if d <= t:
                continue
        keep.append(p)
    o = w.do([['parse', 'c', '<coordinates>%s</coordinates>' % ' '.join('%r,%r,%r' % tuple(p) for p in pts), 'plain'], ['simplify', 'c', f(t), 'x'], ['dump', 'x'], ['dump', 'c']])
    w.eq(points(o[2][0]), keep, 'simplified', 'path %r with tolerance %r' % (pts, t))
    w.eq(points(o[3][0]), pts, 'source', 'the source of a simplification')
    w.seen((pts, t))


FEATURES = ('Placemark', 'NetworkLink', 'GroundOverlay', 'PhotoOverlay', 'ScreenOverlay', 'gx:Tour')


def saver(w, rng):
    """A document is written, with a known list of features and shared styles."""
    w.count('saved')
    feats, styles, left = [], {}, []
    base = rng.choice(['', '', 's.kml', 'http://h/p/style.kml', '../s.kml'])
    ctr = [0]

    def feature(inupdate=False):
        ctr[0] += 1
        su = rng.choice([None, None, '#a', '#style1', '#', 'o.kml#a', '#' + gen.g_id(rng), 'x#', ''])
        tag = rng.choice(FEATURES[:5])
        inner = '<name>f%d</name>' % ctr[0]
        want = su
        if not inupdate and su and base and su[0] == '#' and len(su) > 1:
            want = base + su
        inline = rng.choice(['', '', '<Style id="in%d"><LineStyle><width>2</width></LineStyle></Style>' % ctr[0]])
        def spell(u):
            return '<%s>%s%s%s</%s>' % (tag, inner, '' if u is None else '<styleUrl>%s</styleUrl>' % u, inline, tag)
        if not inupdate:
            feats.append(spell(want))
        return spell(su)

    def style(shared):
        ctr[0] += 1
        i = rng.choice([None, 'a', 'style1', 's%d' % ctr[0]])
        x = rng.choice(['<Style%s><LineStyle><width>%d</width></LineStyle></Style>', '<StyleMap%s><Pair><key>normal</key><styleUrl>#n%d</styleUrl></Pair></StyleMap>'])
        x = x % (' id="%s"' % i if i else '', ctr[0])
        if shared and i:
            styles[i] = x
            return x, ''
        return x, x

    def container(depth):
        tag = rng.choice(['Document', 'Folder'])
        body, rest = '', ''
        if tag == 'Document':
            for _ in range(gen.many(rng, [0, 1, 2, 4], (40,), 0.01)):
                a, b = style(True)
                body += a
                rest += b
        for _ in range(gen.many(rng, [0, 1, 2, 4], (40,), 0.01)):
            if depth < 4 and rng.random() < 0.35:
                a, b = container(depth + 1)
                body += a
                rest += b
            else:
                body += feature()
        return '<%s><name>c</name>%s</%s>' % (tag, body, tag), '<%s><name>c</name>%s</%s>' % (tag, rest, tag)

    a, b = container(0)
    if rng.random() < 0.2:
        u = '<Update><targetHref>t</targetHref><Create><Folder targetId="x">%s</Folder></Create></Update>' % feature(True)
        a = '<NetworkLinkControl>%s</NetworkLinkControl>' % u + a
        b = None
    o = w.do([['listsave', '<kml>%s</kml>' % a, base, 'r', 'l'], ['dump', 'l'], ['dump', 'r'],
              ['parse', 'y', '<Folder>%s</Folder>' % ''.join(feats), 'plain'], ['dump', 'y']])
    w.eq(o[1], o[4], 'features', 'features of %r saved with base %r' % (a[:1500], base))
    if b is not None:
        q = w.do([['parse', 'z', '<kml>%s</kml>' % b, 'plain'], ['dump', 'z']])
        w.eq(o[2], q[1], 'rest', 'what is left of %r' % a[:1500])
    st = [x.decode() for x in o[0][3:]]
    got = dict(zip(st[::2], st[1::2]))
    w.eq(got, styles, 'styles', 'shared styles of %r' % a[:1500])
    w.seen(a)


def counter(w, rng):
    w.count('counted')
    n = gen.G(rng, rng.choice([3, 20, 60]), 0.3).node(rng.choice(['Kml', 'Folder', 'Document', 'Placemark']))
    t = gen.Writer(rng).doc(n)
    o = w.do([['counter', t]])[0]
    w.eq(o[0], b'ok', 'parsed', 'document')
    got = {}
    for k, v in zip(o[1::2], o[2::2]):      # two kinds of Icon share the name
        got[k.decode()] = got.get(k.decode(), 0) + int(v)
    exp = {}
    for x in n.walk():
        tag = S.CLASSES[x.cls].xml
        exp[tag] = exp.get(tag, 0) + 1
    got = {k: v for k, v in got.items() if k in {c.xml for c in S.CLASSES.values()}}
    diff = {k: (got.get(k), exp.get(k)) for k in set(got) | set(exp) if got.get(k) != exp.get(k)}
    w.check(not diff, 'counts', 'element counts (counted, written) %r of %r' % (diff, t[:2000]))
    w.seen(t)


def links(w, rng):
    w.count('archives')
    have = rng.sample(['a.kml', 'img/x.png', 'i.jpg', 'deep/er/y.kml', 'sp ace.png', 'm.dae'], rng.randrange(6))
    pool = ['a.kml', 'img/x.png', 'i.jpg', 'deep/er/y.kml', 'm.dae', 'missing.png', 'img/none.kml', 'http://h/a.kml', 'http://h/no.png', 'https://x/y', '/img/x.png']
    body, missing = '', []
    for _ in range(gen.many(rng, [0, 1, 3, 6], (40,), 0.01)):
        h = rng.choice(pool)
        k = rng.randrange(4)
        body += ['<NetworkLink><Link><href>%s</href></Link></NetworkLink>', '<GroundOverlay><Icon><href>%s</href></Icon></GroundOverlay>',
                 '<Placemark><Style><IconStyle><Icon><href>%s</href></Icon></IconStyle></Style></Placemark>',
                 '<Placemark><Model><Link><href>%s</href></Link></Model></Placemark>'][k] % h
        if '://' not in h and h not in have:
            missing.append(h)
    doc = '<kml><Folder>%s</Folder></kml>' % body
    entries = [('doc.kml', doc.encode())] + [(h, b'content of ' + h.encode()) for h in have]
    fn = os.path.join(w.scratch, 'l.kmz')
    import zipfile
    with zipfile.ZipFile(fn, 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        for n, b in entries:
            z.writestr(n, b)
    o = w.do([['kzopenfile', 'k', fn], ['kzcheck', 'k']])
    os.unlink(fn)
    if '/img/x.png' in missing:
        return
    w.eq([x.decode() for x in o[1]], ['0' if missing else '1'] + missing, 'links', 'missing targets of %r with %r' % (doc, have))
    w.seen((doc, tuple(have)))


ATOM = 'xmlns="http://www.w3.org/2005/Atom"'
KML = 'xmlns="http://www.opengis.net/kml/2.2"'


def feature_text(rng, k):
    r = rng.random()
    n, d = text(rng, 20), text(rng, 20)
    x = '<Placemark id="p%d">%s%s%s</Placemark>' % (k, el('name', n), el('description', d) if r < 0.5 else '', point(num(rng, -90, 90), num(rng), num(rng, 0, 9)) if r < 0.8 else '')
    if r > 0.9:
        x = '<Folder>%s</Folder>' % x
    return x, n, d


def ser(o):
    return o[0]


def feed(w, rng):
    w.count('feeds')
    entries, body = [], ''
    titles = ['a', 'b', 'c', '', 'x y', '<>&', 'caf\u00e9']
    rels = ['self', 'http://schemas.google.com/g/2005#post', 'next', 'alternate', 'edit', 'xself', 'self ', 'post']
    for k in range(rng.choice([0, 1, 2, 5] * 8 + [40])):
        t = rng.choice(titles)
        x, _, _ = feature_text(rng, k)
        has = rng.random() < 0.8
        links_ = [(rng.choice(['u%d' % j, 'http://h/%d' % j, None]), rng.choice(rels), rng.choice(['text/html', 'application/atom+xml', None])) for j in range(rng.choice([0, 1, 3]))]
        cats = [('s#%s' % rng.choice(['kind', 'label', 'k']), 't%d' % j) for j in range(rng.choice([0, 1, 3]))]
        src = rng.choice([None, 'http://h/src', 'a?b&c'])
        entries.append((t, x if has else None, links_, cats, src))
        body += '<entry>%s%s%s%s<content%s>%s</content></entry>' % (
            el('id', 'i%d' % rng.randrange(3)) if rng.random() < 0.4 else '', el('title', t), ''.join('<link%s/>' % ''.join(' %s="%s"' % (a, gen.esc_attr(v)) for a, v in zip(('href', 'rel', 'type'), l) if v is not None) for l in links_),
            ''.join('<category scheme="%s" term="%s"/>' % c for c in cats), ' src="%s"' % gen.esc_attr(src) if src else '', x.replace('>', ' %s>' % KML, 1) if has else '')
    fl = [('http://h/self', rng.choice(rels), None) for _ in range(rng.choice([0, 1]))]
    doc = '<feed %s>%s%s</feed>' % (ATOM, ''.join('<link href="%s" rel="%s"/>' % l[:2] for l in fl), body)
    o = w.do([['parse', 'f', doc, 'atom'], ['dump', 'f'], ['newel', 'c', rng.choice(['Folder', 'Document'])], ['atomfeedfeatures', 'f', 'c'], ['ser', 'c', 'raw'], ['dump', 'f'],
              ['newel', 'd', 'Folder'], ['mapkml', 'f', 'd'], ['ser', 'd', 'raw'], ['dump', 'f'], ['atomfindtitle', 'f', rng.choice(titles), 'q']])
    w.eq(o[0][0], b'ok', 'feed', 'parse of %r' % doc)
    def rel(l, want):
        return l[1].endswith(want)
    def selfurl(e):
        for l in e[2]:
            if l[0] is not None and rel(l, 'self'):
                return l[0]
        return None
    exp = []
    for e in entries:
        if e[1]:
            u = selfurl(e)
            exp.append((e[1], u))
    # the feed is left as it was
    w.eq(o[5], o[1], 'unchanged', 'feed after its features were copied')
    w.eq(o[9], o[1], 'unchanged', 'feed after its map was made')
    w.eq(int(o[7][0]), len(exp), 'mapcount', 'number of features of %r' % doc)
    q = w.do([['parse', 'a', o[4][0], 'plain'], ['dump', 'a'], ['parse', 'b', o[8][0], 'plain'], ['dump', 'b']])
    a = '<Folder>%s</Folder>' % ''.join(x for x, _ in exp)
    ft = b'Folder' if b'(Folder' == q[1][0][:7] else b'Document'
    sl = next((l[0] for l in fl if rel(l, 'self')), None)
    b = '<%s xmlns:atom="http://www.w3.org/2005/Atom">%s%s</%s>' % (ft.decode(), '<atom:link href="%s"/>' % sl if sl else '', ''.join(withlink(x, u) for x, u in exp), ft.decode())
    p = w.do([['parse', 'x', a, 'plain'], ['dump', 'x'], ['parse', 'y', b, 'plain'], ['dump', 'y']])
    w.eq(clean(q[3]), clean(p[1]), 'mapkml', 'features of the map of %r' % doc)
    w.eq(clean(q[1]), clean(p[3]), 'feedfeatures', 'features of %r' % doc)
    # finders on one entry
    if entries:
        e = rng.choice(entries)
        k = entries.index(e)
        rt, mt, sc = rng.choice(rels + ['', 'lf']), rng.choice(['text/html', 'application/atom+xml', '']), rng.choice(['#kind', 'label', 'k', 'nothere'])
        title = rng.choice(titles)
        o = w.do([['cat', 'f', 'entry', str(k), 'e'], ['atomfindlink', 'e', rt, mt, 'l'], ['dump', 'l'], ['atomfindcat', 'e', sc, 'c'], ['dump', 'c'], ['atomcontentsrc', 'e'],
                  ['atomfindtitle', 'f', title, 't'], ['same', 't', 'e'], ['atomgetfeature', 'e', 'g'], ['dump', 'g'], ['parse', 'h', e[1] or '<Folder/>', 'plain'], ['dump', 'h'],
                  ['get', 't', 'title'] if any(z[0] == title for z in entries) else ['ping']])
        m = [l for l in e[2] if rt and rel(l, rt) and (l[2] or '') == mt]
        hr = [l[0] for l in e[2] if rt and rel(l, rt) and l[0] is not None]
        w.eq(o[1], [b'ok' if m else b'null', b'1' if hr else b'0', hr[0].encode() if hr else b''], 'links', 'link %r %r of %r' % (rt, mt, e))
        if m:
            for nm, v in zip((b'href', b'rel', b'type'), m[0]):
                if v is not None:
                    w.check(b' %s="%s"' % (nm, v.encode()) in o[2][0], 'link', 'link found for %r %r of %r: %r' % (rt, mt, e, o[2][0]))
        u = rng.choice(['', '<gd:resourceId xmlns:gd="http://schemas.google.com/g/2005">document:%d</gd:resourceId>' % rng.randrange(99), '<gd:other xmlns:gd="http://schemas.google.com/g/2005">x</gd:other>'])
        null = rng.random() < 0.3
        g = w.do([['parse', 'gd', '<entry %s><title>t</title>%s</entry>' % (ATOM, u), 'atom'], ['atomgd', 'gd', 'null' if null else '']])[1]
        has = 'resourceId' in u
        w.eq(g, [b'1' if has else b'0', u[u.index('>') + 1:u.rindex('</')].encode() if has and not null else b''], 'resourceid', 'resource id of %r' % u)
        c = [z for z in e[3] if z[0].endswith(sc)]
        w.eq(o[3], [b'ok' if c else b'null'], 'category', 'category %r of %r' % (sc, e))
        if c:
            w.check(b' term="%s"' % c[0][1].encode() in o[4][0], 'category', 'category found for %r of %r: %r' % (sc, e, o[4][0]))
        w.eq(o[5], [b'1', e[4].encode()] if e[4] else [b'0', b''], 'src', 'content source of %r' % (e,))
        first = next((j for j, z in enumerate(entries) if z[0] == title), None)
        w.eq(o[6], [b'null' if first is None else b'ok'], 'title', 'entry titled %r of %r' % (title, doc))
        w.eq(o[7], [b'1' if first == k else b'0'], 'title', 'first entry titled %r of %r' % (title, doc))
        if e[1]:
            w.eq(clean(o[9]), clean(o[11]), 'entryfeature', 'feature of %r' % (e,))
        else:
            w.eq(o[8], [b'null'], 'entryfeature', 'feature of %r' % (e,))
    w.seen(doc)


FEATS = ['Placemark', 'Folder', 'Document', 'NetworkLink', 'GroundOverlay', 'ScreenOverlay', 'PhotoOverlay', 'GxTour']


def bare(b):
    return b.replace(b' text=""', b'')


def entries(w, rng):
    """an entry made for a feature carries that feature, its name and its description; copies are equal and share nothing"""
    w.count('entries')
    n = tidy(gen.G(rng, rng.choice([2, 5, 15, 40]), rng.choice([0.1, 0.3, 0.6])).node(rng.choice(FEATS)))
    wr = gen.Writer(rng, cdata=0)
    t, s, h = text(rng), text(rng), rng.choice(['http://h/x', 'a?b&c', 'u'])
    rel, ty = rng.choice(['self', 'x#self', 'edit']), rng.choice(['text/html', 'x'])
    src = tidy(gen.G(rng, rng.choice([2, 10, 40]), 0.3).node(rng.choice(['Folder', 'Document'])))
    dst = tidy(gen.G(rng, rng.choice([2, 10]), 0.3).node(rng.choice(['Folder', 'Document'])))
    o = w.do([['parse', 'f', wr.xml(n), 'plain'], ['dump', 'f'], ['atomfeature', 'f', 'e'], ['get', 'e', 'title'], ['get', 'e', 'summary'], ['atomgetfeature', 'e', 'g'], ['same', 'f', 'g'],
              ['atomclonefeature', 'e', 'c'], ['dump', 'c'], ['ptrs', 'f', 'c'], ['dump', 'f'], ['ser', 'e', 'raw'],
              ['atomentry', 'b', t, s], ['dump', 'b'], ['get', 'b', 'title'], ['get', 'b', 'summary'], ['atomlink', 'l', h, rel, ty], ['get', 'l', 'href'], ['get', 'l', 'rel'], ['get', 'l', 'type'],
              ['parse', 's', wr.xml(src), 'plain'], ['dump', 's'], ['parse', 'd', wr.xml(dst), 'plain'], ['copyfeatures', 's', 'd'], ['dump', 's'], ['dump', 'd'], ['ptrs', 's', 'd'],
              ['atomgetfeature', 'b', 'n'], ['atomclonefeature', 'b', 'n']])
    for k in (1, 8, 10, 21, 24, 25):      # empty text and no text are the same
        o[k] = [bare(o[k][0])]
    w.eq(o[1][0], bare(gen.dump(n).encode('latin1')), 'feature', 'feature as read')
    w.eq((o[3][0], o[4][0]), tuple((n.f.get(k) or '').encode() for k in ('name', 'description')), 'entry', 'title and summary of the entry')
    w.eq(o[6], [b'1'], 'entryfeature', 'the entry carries the feature itself')
    w.eq(o[8][0], o[1][0], 'entryclone', 'copy of the feature of the entry')
    w.eq(o[9][2], b'0', 'entryclone', 'elements shared with the copy')
    w.eq(o[10], o[1], 'entryfeature', 'the feature afterwards')
    w.eq((o[14][0], o[15][0], o[17][0], o[18][0], o[19][0]), (t.encode(), s.encode(), h.encode(), rel.encode(), ty.encode()), 'basic', 'entry and link as made')
    w.eq(o[24], o[21], 'copysource', 'the container features were copied from')
    w.eq(o[26][2], b'0', 'copyshares', 'elements shared by source and target')
    dst.f['feature'] = (dst.f.get('feature') or []) + (src.f.get('feature') or [])
    if not dst.f['feature']:
        del dst.f['feature']
    w.eq(o[25][0], bare(gen.dump(dst).encode('latin1')), 'copytarget', 'target of the copy')
    w.eq((o[27], o[28]), ([b'null'], [b'null']), 'nofeature', 'feature of an entry without one')
    q = w.do([['parse', 'E', o[11][0], 'plain'], ['atomgetfeature', 'E', 'G'], ['dump', 'G'], ['get', 'E', 'title']])
    w.eq((bare(q[2][0]), q[3][0]), (o[1][0], o[3][0]), 'entrytext', 'feature and title read back from %r' % o[11][0][:300])
    w.seen(wr.xml(n))


def withlink(x, u):
    if u is None:
        return x
    at = x.index('</description>') + 14 if '</description>' in x and x.startswith('<Placemark') else x.index('</name>') + 7 if x.startswith('<Placemark') else x.index('>') + 1
    return x[:at] + '<atom:link href="%s"/>' % gen.esc_attr(u) + x[at:]


def clean(o):
    import re
    return [re.sub(rb' xmlns@[a-z]*="[^"]*"', b'', re.sub(rb' @xmlns[a-z:]*="[^"]*"', b'', o[0]))]


def posts(w, rng):
    pl, ctr = [], [0]

    def place():
        ctr[0] += 1
        g = rng.random() < 0.7
        n, d = text(rng, 20), text(rng, 20)
        x = '<Placemark id="p%d">%s%s%s</Placemark>' % (ctr[0], el('name', n), el('description', d), point(num(rng, -90, 90), num(rng), num(rng, 0, 9)) if g else '')
        return x, n, d, g

    def container(depth):
        b = ''
        for _ in range(gen.many(rng, [0, 1, 2, 4], (40,), 0.01)):
            if depth < 3 and rng.random() < 0.3:
                b += container(depth + 1)
            else:
                p = place()
                b += p[0]
                if p[3]:
                    pl.append(p)
        return '<Folder>%s</Folder>' % b

    if rng.random() < 0.15:
        p = place()
        pl.append(p)
        root = p[0]
    else:
        root = container(0)
    fail = rng.random() < 0.15
    uri = 'http://h/feed/%d' % rng.randrange(9)
    o = w.do([['parse', 'r', root, 'plain'], ['mappost', 'r', uri, 'resp', 'fail' if fail else 'ok']])[1]
    ev = [o[k:k + 3] for k in range(1, len(o), 3)]
    w.count('posts', len(ev))
    w.eq((int(o[0]), len(ev)), (0 if fail else len(pl), len(pl)), 'posts', 'posts for %r' % root[:1500])
    for e, p in zip(ev, pl):
        w.eq(e[1], uri.encode(), 'uri', 'target of a post')
        q = w.do([['parse', 'e', e[2], 'atom'], ['get', 'e', 'title'], ['get', 'e', 'summary'], ['atomgetfeature', 'e', 'g'], ['dump', 'g'], ['parse', 'h', p[0], 'plain'], ['dump', 'h']])
        w.eq((q[0][0], q[1][0], q[2][0]), (b'ok', p[1].encode(), p[2].encode()), 'entry', 'entry posted for %r: %r' % (p[0], e[2]))
        w.eq(clean(q[4]), clean(q[6]), 'posted', 'feature posted for %r: %r' % (p[0], e[2]))
    w.seen(root)
