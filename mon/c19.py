"""Bounds, centres, views and spherical geometry agree with a direct computation over the points of the document."""
from . import gen
import math
import re
import re
ID = 'C19'
RULE = ('random features and geometries of every kind, nested and empty, with points over the whole range and at its borders; boxes, quadtrees, '
        'point pairs near and far, at poles and antipodes; compared with minima and maxima over the points and with vector geometry; distinct by input')
CASES = {'quick': 240000, 'thorough': 600000}
MIN = {'checks': 250000, 'bounded': 8000, 'unbounded': 2000, 'nested': 5000, 'aligned': 5000, 'pairs': 8000, 'lookats': 6000, 'moved': 3000}
R = 6366710.0


def lat(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice([0.0, 90.0, -90.0, 89.999999, -89.5, 45.0])
    if r < 0.4:
        return float(rng.randrange(-90, 91))
    return round(rng.uniform(-90, 90), rng.choice([1, 3, 6, 12]))


def lon(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice([0.0, 180.0, -180.0, 179.999999, -179.5, 90.0])
    if r < 0.4:
        return float(rng.randrange(-180, 181))
    return round(rng.uniform(-180, 180), rng.choice([1, 3, 6, 12]))


def coords(rng, pts, n=None):
    if rng.random() < 0.08:
        return ''
    c = []
    for _ in range(n if n is not None else rng.choice([0, 1, 1, 2, 3, 5, 20])):
        a, b = lat(rng), lon(rng)
        pts.append((a, b))
        c.append('%r,%r%s' % (b, a, rng.choice(['', ',0', ',%r' % rng.uniform(-1e4, 1e4), ',1e5'])))
    return '<coordinates>%s%s</coordinates>' % (rng.choice(['', ' ', '\n']), rng.choice([' ', '\n', '  \t']).join(c))


def geometry(rng, pts, depth=0):
    x = geometry1(rng, pts, depth)
    if rng.random() < 0.15:       # attributes make no difference
        x = re.sub('^<([A-Za-z]+)', lambda m: m.group(0) + rng.choice([' id="i%d"' % rng.randrange(9), ' targetId="t"', ' id="a" targetId="b"', ' x="1"']), x)
    return x


def geometry1(rng, pts, depth=0):
    r = rng.random()
    junk = rng.choice(['', '', '<extrude>1</extrude>', '<altitudeMode>absolute</altitudeMode>', '<zz/>'])
    if r < 0.25:
        return '<Point>%s%s</Point>' % (junk, coords(rng, pts, rng.choice([1] * 9 + [0])))
    if r < 0.4:
        return '<LineString>%s%s</LineString>' % (junk, coords(rng, pts))
    if r < 0.5:
        return '<LinearRing>%s%s</LinearRing>' % (junk, coords(rng, pts))
    if r < 0.68:
        p = rng.random()
        s = junk
        if p > 0.1:
            s += '<outerBoundaryIs>%s</outerBoundaryIs>' % ('<LinearRing>%s</LinearRing>' % coords(rng, pts) if p > 0.2 else '')
        for _ in range(gen.many(rng, [0, 0, 1, 2], (40, 150), 0.01)):
            s += '<innerBoundaryIs><LinearRing>%s</LinearRing></innerBoundaryIs>' % coords(rng, [])
        return '<Polygon>%s</Polygon>' % s
    if r < 0.8:
        if rng.random() < 0.8:
            a, b = lat(rng), lon(rng)
            m = rng.random()
            if m < 0.1:
                a = 0.0
            elif m < 0.2:
                b = 0.0
            pts.append((a, b))
            return '<Model>%s<Location>%s%s<altitude>7</altitude></Location></Model>' % (
                junk, '' if m < 0.1 else '<latitude>%r</latitude>' % a, '' if 0.1 <= m < 0.2 else '<longitude>%r</longitude>' % b)
        return '<Model>%s</Model>' % junk
    if depth < 4:
        return '<MultiGeometry>%s</MultiGeometry>' % ''.join(geometry(rng, pts, depth + 1) for _ in range(gen.many(rng, [0, 1, 2, 3, 5], (40, 150), 0.01)))
    return '<Point/>'


def feature(rng, pts, depth=0):
    r = rng.random()
    junk = rng.choice(['', '<name>n</name>', '<LookAt><longitude>77</longitude><latitude>-66</latitude></LookAt>', '<Region><LatLonAltBox><north>89</north></LatLonAltBox></Region>'])
    if r < 0.55:
        return '<Placemark>%s%s</Placemark>' % (junk, geometry(rng, pts) if rng.random() < 0.9 else '')
    if r < 0.65:
        return '<PhotoOverlay>%s%s</PhotoOverlay>' % (junk, '<Point>%s</Point>' % coords(rng, pts, rng.choice([1] * 9 + [0])) if rng.random() < 0.8 else '')
    if r < 0.75:
        return rng.choice(['<NetworkLink>%s</NetworkLink>', '<ScreenOverlay>%s</ScreenOverlay>', '<gx:Tour>%s</gx:Tour>']) % junk
    if depth < 5:
        t = rng.choice(['Folder', 'Document'])
        return '<%s>%s%s</%s>' % (t, junk, ''.join(feature(rng, pts, depth + 1) for _ in range(rng.choice([0, 1, 2, 4] * 10 + [90 if depth < 2 else 3]))), t)
    return '<Placemark/>'


def fl(x):
    return [float(v) for v in x]


def bnd(pts):
    return [max(p[0] for p in pts), min(p[0] for p in pts), max(p[1] for p in pts), min(p[1] for p in pts)]


def near(w, a, b, tol, key, msg):
    w.check(abs(a - b) <= tol, key, lambda: '%s: %r, by reference %r (tolerance %g)' % (msg, a, b, tol))


def vec(la, lo):
    la, lo = math.radians(la), math.radians(lo)
    return math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)


def cross(u, v):
    return u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def angle(la1, lo1, la2, lo2):
    u, v = vec(la1, lo1), vec(la2, lo2)
    c = cross(u, v)
    return math.atan2(math.sqrt(dot(c, c)), dot(u, v))


def dist_tol(a):
    """the haversine is ill-conditioned near the antipode"""
    return R * (1e-12 + 3e-15 / max(1e-7, math.cos(a / 2)))


def lookat_range(b):
    n, s, e, ww = b
    cla, clo = (n + s) / 2, (e + ww) / 2
    d1, d2 = R * angle(cla, clo, n, clo), R * angle(cla, clo, cla, ww)
    return max(1000.0, math.hypot(d1, d2) * math.tan(math.radians(60)) * 1.1)


def case(w, rng, i):
    r = rng.random()
    if r < 0.5:
        bounds(w, rng)
    elif r < 0.7:
        boxes(w, rng)
    else:
        sphere(w, rng)


def bounds(w, rng):
    pts = []
    feat = rng.random() < 0.7
    t = feature(rng, pts) if feat else geometry(rng, pts)
    ops = [['parse', 'a', t, 'plain'], ['bounds', 'a'], ['latlon', 'a'], ['lookat', 'a', 'l']]
    q = (lat(rng), lon(rng))
    ops.append(['latlon2', 'a', repr(q[0]), repr(q[1])])
    o = w.do(ops)
    w.check(o[0][0] == b'ok', 'parse', t[:300])
    if len(t) > 200:
        w.count('nested')
    if not pts:
        w.eq((o[1][0], o[2][0]), (b'0', b'0'), 'nobounds', 'a document with no location: %s' % t[:300])
        if feat:
            w.eq(o[3][0], b'null', 'noview', 'no view of what has no location')
        w.eq([o[4][0], o[4][3], o[4][6]], [b'0', b'0', b'0'], 'nobounds2', 'no location, with and without outputs: %s' % t[:300])
        w.eq(fl(o[4][7:11]), bnd([q]), 'nobounds:kept', 'a box is left alone by what has no location')
        w.count('unbounded')
    else:
        b = bnd(pts)
        w.eq([o[1][0]] + fl(o[1][1:5]), [b'1'] + b, 'bounds', 'bounds of %s' % t[:600])
        c = [(b[0] + b[1]) / 2, (b[2] + b[3]) / 2]
        w.eq(fl(o[1][5:7]), c, 'center', 'centre of the box')
        w.eq([o[2][0]] + fl(o[2][1:3]), [b'1'] + c, 'latlon', 'location of %s' % t[:300])
        w.eq([o[4][0]] + fl(o[4][1:3]), [b'1'] + c, 'latlon:kind', 'location by the function of its kind of %s' % t[:300])
        w.eq([o[4][3]] + fl(o[4][4:6]), [b'1'] + c, 'latlon:outputs', 'location with one output at a time, and none, of %s' % t[:300])
        w.eq([o[4][6]] + fl(o[4][7:11]), [b'1'] + bnd(pts + [q]), 'bounds:expand', 'box of %r expanded by %s' % (q, t[:300]))
        w.count('bounded')
        if feat:
            view(w, w.do([['dump', 'l']])[0][0], b, c, t)
    if rng.random() < 0.3:
        moved(w, rng)
    w.seen(t)
    w.sample({'text': t[:200], 'points': len(pts)})


def moved(w, rng):
    """locations follow the coordinates when they change: as of the same content read afresh"""
    o = w.do([['pick', 'a', rng.randrange(10 ** 6), 'x%d' % k] for k in range(8)])
    ops = []
    for k, q in enumerate(o):
        x = 'x%d' % k
        if q[1] == b'Coordinates':
            n = rng.choice([1, 2, 2, 3])
            if rng.random() < 0.7:
                ops.append(['clearcoords', x])
            ops += [['addlatlng', x, repr(lat(rng)), repr(lon(rng))] for _ in range(n)]
        elif q[1] == b'Location':
            ops += [['set', x, 'latitude', repr(lat(rng))], ['set', x, 'longitude', repr(lon(rng))]]
        elif q[1] in (b'Folder', b'Document') and rng.random() < 0.5:
            ops.append(['delat', x, 'feature', '0', 'gone'])
    if not ops:
        return
    tail = lambda r: [['bounds', r], ['latlon', r], ['lookat', r, 'l'], ['dump', 'l']]
    o = w.do(ops + tail('a') + [['ser', 'a', 'raw']])
    q = w.do([['parse', 'b', o[-1][0], 'plain']] + tail('b'))
    w.eq(o[-5:-1], q[1:], 'moved', 'location after %r' % ops[:4])
    w.count('moved')


def view(w, dump, b, c, t):
    """the fields of a LookAt in a dump"""
    f = dict(re.findall(r'(\w+)="([^"]*)"', dump.decode()))
    w.check(dump.startswith(b'(LookAt ') and set(f) <= {'latitude', 'longitude', 'range', 'altitudemode'}, 'view', 'the view is %r' % dump)
    got = [float(f.get(k, 'nan')) for k in ('latitude', 'longitude', 'range')]
    w.eq(got[:2], c, 'viewcenter', 'centre of the view')
    ref = lookat_range(b)
    near(w, got[2], ref, 1e-6 * ref + 0.1, 'viewrange', 'range of the view of %s' % t[:300])
    w.count('lookats')


def inside(a, b):
    """box a within b; both n s e w"""
    return b[0] >= a[0] and b[1] <= a[1] and b[2] >= a[2] and b[3] <= a[3]


def quads(q):
    n, s, e, ww = q
    la, lo = (n + s) / 2, (e + ww) / 2
    return [[n, la, e, lo], [n, la, lo, ww], [la, s, e, lo], [la, s, lo, ww]]


def boxes(w, rng):
    pts = [(lat(rng), lon(rng)) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
    if rng.random() < 0.5:
        a, b = pts[0]
        d = 10.0 ** rng.randrange(-6, 1)
        pts = [(min(90, max(-90, a + rng.uniform(-d, d))), min(180, max(-180, b + rng.uniform(-d, d)))) for _ in pts]
    b = bnd(pts)
    a = []
    for p in pts:
        a += ['exp', repr(p[0]), repr(p[1])]
    a += ['get']
    ex = [('f', b + [(b[0] + b[1]) / 2, (b[2] + b[3]) / 2], 'bounds of %r' % pts)]
    for _ in range(6):
        p = (lat(rng), lon(rng)) if rng.random() < 0.5 else (rng.choice([b[0], b[1], pts[0][0], (b[0] + b[1]) / 2]), rng.choice([b[2], b[3], pts[0][1], (b[2] + b[3]) / 2]))
        a += ['has', repr(p[0]), repr(p[1])]
        ex.append(('b', b[0] >= p[0] >= b[1] and b[2] >= p[1] >= b[3], '%r in %r' % (p, b)))
    for _ in range(4):
        q = bnd([(lat(rng), lon(rng)), (lat(rng), lon(rng))])
        if rng.random() < 0.6:
            q = [x if rng.random() < 0.6 else y for x, y in zip(b, q)]
            q = [max(q[:2]), min(q[:2]), max(q[2:]), min(q[2:])]
        a += ['in'] + [repr(x) for x in q]
        ex.append(('b', inside(b, q), '%r within %r' % (b, q)))
    q = rng.choice([[90.0, -90.0, 180.0, -180.0], [180.0, -180.0, 180.0, -180.0], [64.0, 0.0, 64.0, 0.0], bnd([(lat(rng), lon(rng)), (lat(rng), lon(rng))])])
    depth = rng.choice([0, 1, 2, 5, 11, 24])
    a += ['align'] + [repr(x) for x in q] + [str(depth)]
    e = bnd([(lat(rng), lon(rng)), (lat(rng), lon(rng))])
    u = [max(b[0], e[0]), min(b[1], e[1]), max(b[2], e[2]), min(b[3], e[3])]
    a += ['box'] + [repr(x) for x in e] + ['get']
    o = w.do([['bbox'] + a])[0]
    k = 0
    for kind, v, m in ex:
        if kind == 'f':
            w.eq(fl(o[k:k + 6]), v, 'box', m)
            k += 6
        else:
            w.eq(o[k], b'1' if v else b'0', 'contains', m)
            k += 1
    got = fl(o[k:k + 4])
    w.eq(fl(o[k + 6:k + 10]), u, 'union', 'box %r expanded by %r' % (b, e))
    # the quadtree node
    cur, steps = [q], 0
    while got not in cur and steps <= depth:
        cur = [x for c in cur for x in quads(c) if inside(got, x) and inside(b, x)]
        steps += 1
    w.check(got in cur, 'node', lambda: '%r aligned to %r in %d levels is %r, no node of it holding the box' % (b, q, depth, got))
    if steps <= depth:
        w.check(not any(inside(b, x) for x in quads(got)), 'tight', lambda: '%r aligned to %r in %d levels is %r, which is not the smallest' % (b, q, depth, got))
    w.count('aligned')
    t = ''.join('<%s>%r</%s>' % (x, v, x) for x, v in zip(('north', 'south', 'east', 'west'), b))
    el = rng.choice(['LatLonBox', 'LatLonAltBox'])
    o = w.do([['parse', 'x', '<%s>%s</%s>' % (el, t, el), 'plain'], ['boxcenter', 'x'], ['bboxlookat'] + [repr(v) for v in b] + ['l'], ['dump', 'l']])
    c = [(b[0] + b[1]) / 2, (b[2] + b[3]) / 2]
    w.eq(fl(o[1]), c, 'llbcenter', 'centre of %s %r' % (el, b))
    view(w, o[3][0], b, c, repr(b))
    w.seen((pts, q, depth))


def sphere(w, rng):
    w.count('pairs')
    la1, lo1 = lat(rng), lon(rng)
    r = rng.random()
    if r < 0.5:
        la2, lo2 = lat(rng), lon(rng)
    elif r < 0.8:
        d = 10.0 ** rng.randrange(-7, 1)
        la2, lo2 = min(90, max(-90, la1 + rng.uniform(-d, d))), lo1 + rng.uniform(-d, d)
    elif r < 0.9:
        la2, lo2 = -la1, lo1 + 180
    else:
        la2, lo2 = la1, lo1
    al1, al2 = rng.uniform(-1e4, 1e4), rng.uniform(-1e4, 1e4)
    dist = rng.choice([0.0, 1.0, 1e3, 1e5, 1e6, rng.uniform(0, 1.9e7)])
    az = rng.choice([0.0, 90.0, 180.0, 270.0, 360.0, rng.uniform(0, 360), rng.uniform(-180, 180)])
    elev = rng.choice([0.0, 90.0, -90.0, rng.uniform(-90, 90)])
    p = [repr(float(x)) for x in (la1, lo1, la2, lo2)]
    o = w.do([['distance'] + p, ['distance'] + p[2:] + p[:2], ['azimuth'] + p, ['distance3d', p[0], p[1], repr(al1), p[2], p[3], repr(al2)],
              ['elevation', p[0], p[1], repr(al1), p[2], p[3], repr(al2)], ['radial', p[0], p[1], repr(dist), repr(az)], ['rangeelev', repr(dist), repr(elev)], ['degrad', p[1]]])
    a = angle(la1, lo1, la2, lo2)
    d = float(o[0][0])
    tol = dist_tol(a)
    near(w, d, a * R, tol, 'distance', 'distance of %r' % p)
    near(w, float(o[1][0]), d, tol, 'symmetric', 'distance of %r reversed' % p)
    near(w, float(o[3][0]), math.hypot(a * R, al2 - al1), tol + 1e-6, 'distance3d', 'distance of %r with altitudes' % p)
    if a > 1e-7 and a < math.pi - 1e-5:
        near(w, float(o[4][0]), math.degrees(math.atan2(al2 - al1, a * R)), 1e-6 + 1e-8 / a, 'elevation', 'elevation of %r' % p)
        if abs(la1) < 89.99:
            # initial bearing by vectors
            u, v = vec(la1, lo1), vec(la2, lo2)
            lr = math.radians(lo1)
            east = (-math.sin(lr), math.cos(lr), 0.0)
            north = cross(u, east)
            ref = math.degrees(math.atan2(dot(v, east), dot(v, north)))
            g = float(o[2][0])
            diff = abs((g - ref + 180) % 360 - 180)
            w.check(diff <= 1e-7 + 1e-11 / math.sin(a), 'azimuth', lambda: 'azimuth of %r is %r, by reference %r' % (p, g, ref))
            w.check(-180 - 1e-9 <= g <= 180 + 1e-9, 'azrange', lambda: 'azimuth %r' % g)
    g = fl(o[5])
    w.check(-90 <= g[0] <= 90 and -180 - 1e-9 <= g[1] <= 180 + 1e-9, 'radialrange', lambda: 'the point %r at %r on radial %r from %r' % (g, dist, az, p[:2]))
    b = angle(la1, lo1, g[0], g[1])
    near(w, b * R, dist, 1e-3 if max(abs(la1), abs(g[0])) < 89 else 1.0, 'radial', 'distance of the point %r at %r on radial %r from %r' % (g, dist, az, p[:2]))
    if dist >= 1e3 and abs(la1) < 89 and dist < 1.8e7:
        u, v = vec(la1, lo1), vec(g[0], g[1])
        lr = math.radians(lo1)
        east = (-math.sin(lr), math.cos(lr), 0.0)
        north = cross(u, east)
        ref = math.degrees(math.atan2(dot(v, east), dot(v, north)))
        diff = abs((az - ref + 180) % 360 - 180)
        w.check(diff <= 1e-4, 'radialaz', lambda: 'the point %r at %r on radial %r from %r lies at %r' % (g, dist, az, p[:2], ref))
    near(w, float(o[6][0]), abs(math.cos(math.radians(elev)) * dist), 1e-6, 'ground', 'ground distance')
    near(w, float(o[6][1]), abs(math.sin(math.radians(elev)) * dist), 1e-6, 'height', 'height')
    g = fl(o[7])
    near(w, g[0], math.radians(float(p[1])), 1e-12, 'rad', 'radians')
    near(w, g[1], float(p[1]), 1e-12, 'deg', 'degrees')
    near(w, g[3], float(p[1]), 1e-9, 'metres', 'metres')
    w.seen(p)
