"""Regionation puts every feature into exactly one file, within its region, and the files form one linked tree."""
import copy
import math
import os
import shutil
from . import gen, reader, schema as S
from .c19 import lat, lon, inside, quads, bnd
ID = 'C21'
RULE = ('random feature lists (spread, clustered, coincident, on cell borders, without location, scored) regionated with limits from 1 up, '
        'every file read back; recorded handler calls of the generic regionator over random trees; feature list operations against a model; '
        'distinct by list and limit')
CASES = {'quick': 7500, 'thorough': 100000}
MIN = {'checks': 100000, 'files': 20000, 'placed': 40000, 'traces': 1000, 'visited': 30000, 'listops': 15000, 'deep': 300, 'stopped': 30, 'how_handler': 300, 'nofeature': 300, 'helpers': 5000, 'boxed': 1500}


def kid(e, t):
    for k in e.kids:
        if k.tag == t:
            return k
    return None


def txt(e, *path):
    for t in path:
        e = kid(e, t)
        if e is None:
            return None
    return ''.join(p for p in e.parts if isinstance(p, str)).strip()


def box(e):
    b = kid(kid(e, 'Region'), 'LatLonAltBox')
    return [float(txt(b, x) or 0) for x in ('north', 'south', 'east', 'west')]


def case(w, rng, i):
    r = rng.random()
    if r < 0.5:
        regionate(w, rng)
    elif r < 0.75:
        trace(w, rng)
    else:
        lists(w, rng)
    helpers(w, rng)


def points(rng, n):
    mode = rng.choice(['spread', 'cluster', 'same', 'grid', 'mix', 'line'])
    la, lo = lat(rng), lon(rng)
    d = 10.0 ** rng.randrange(-6, 1)
    out = []
    for _ in range(n):
        m = rng.choice(['spread', 'cluster', 'same', 'grid']) if mode == 'mix' else mode
        if m == 'spread':
            p = (lat(rng), lon(rng))
        elif m == 'cluster':
            p = (round(min(90, max(-90, la + rng.uniform(-d, d))), 9), round(min(180, max(-180, lo + rng.uniform(-d, d))), 9))
        elif m == 'same':
            p = (la, lo)
        elif m == 'line':
            p = (la, round(rng.uniform(-180, 180), 6))
        else:
            k = rng.choice([1, 2, 4, 8, 64])
            p = (180.0 * rng.randrange(-k // 2, k // 2 + 1) / k, 360.0 * rng.randrange(-k // 2, k // 2 + 1) / k)
            p = (min(90.0, max(-90.0, p[0])), min(180.0, max(-180.0, p[1])))
        out.append(p)
    return out


def feature(rng, name, p, score):
    e = '<ExtendedData><Data name="kml.FeatureScore"><value>%s</value></Data></ExtendedData>' % score if score is not None else ''
    f = feature_(rng, name, p, e)
    if rng.random() < 0.4:              # an id of its own, the same as others or empty
        f = f.replace('>', ' id="%s">' % rng.choice([name, 'same', '', 'q0']), 1)
    return f


def feature_(rng, name, p, e):
    if p is None:
        return rng.choice(['<Placemark><name>%s</name>%s</Placemark>', '<NetworkLink><name>%s</name>%s</NetworkLink>', '<Folder><name>%s</name>%s</Folder>']) % (name, e)
    c = '%r,%r' % (p[1], p[0])
    if rng.random() < 0.2:
        return '<Folder><name>%s</name>%s<Placemark><Point><coordinates>%s,7</coordinates></Point></Placemark></Folder>' % (name, e, c)
    return '<Placemark><name>%s</name>%s<Point><coordinates>%s</coordinates></Point></Placemark>' % (name, e, c)


def sc(s):
    return 0 if s is None else int(s)


def regionate(w, rng):
    n = rng.choice([1, 2, 5, 20, 60, 150])
    top = rng.choice([1, 1, 2, 3, 10, 10, 100])
    pts = points(rng, n)
    pts = [p if rng.random() < 0.95 else None for p in pts]
    scores = [rng.choice([None, rng.randrange(-5, 100), rng.randrange(-2147483648, 2147483648), rng.choice([127, 128, 255, 256, -128, 32768, 65536])]) if rng.random() < 0.7 else None for _ in pts]
    if rng.random() < 0.3:
        scores = [None] * n
    ops = [['flclear']]
    for k, (p, s) in enumerate(zip(pts, scores)):
        ops += [['parse', 'x', feature(rng, 'n%d' % k, p, s), 'plain'], ['flpush', 'l', 'x'], ['drop', 'x']]
    out = os.path.join(w.scratch, 'reg')
    shutil.rmtree(out, ignore_errors=True)
    os.mkdir(out)
    located = [k for k, p in enumerate(pts) if p is not None]
    how = rng.choice(['full', 'full', 'full', 'stop', 'none', 'null', 'handler', 'handler'])
    stop, given = None, None
    call = ['flregionate', 'l', str(top), out]
    if how == 'stop':
        stop = rng.choice([0, 1, 2, 5, 20])
        call.append(str(stop))
    elif how in ('none', 'null'):
        call.append(how)
    elif how == 'handler':          # the handler on its own: ten to a file, in the order of the list, over a region given
        top = 10
        loc = [pts[k] for k in located]
        given = bnd([rng.choice(loc), rng.choice(loc)]) if loc and rng.random() < 0.3 else [90.0, -90.0, 180.0, -180.0] if rng.random() < 0.5 else bnd([(lat(rng), lon(rng)), (lat(rng), lon(rng))])
        ops += [['parse', 'g', '<Region><LatLonAltBox>%s</LatLonAltBox><Lod><minLodPixels>256</minLodPixels><maxLodPixels>-1</maxLodPixels></Lod></Region>' % ''.join(
            '<%s>%r</%s>' % (t, v, t) for t, v in zip(('north', 'south', 'east', 'west'), given)), 'plain']]
        call = ['flhandler', 'l', 'g', out]
        located = [k for k in located if given[0] >= pts[k][0] >= given[1] and given[2] >= pts[k][1] >= given[3]]
    w.count('how_' + how)
    o = w.do(ops + [call, ['flsize', 'l'], ['flclear']])
    w.eq(o[-3][0], b'1', 'result', 'result of the regionation')
    names = sorted(os.listdir(out))
    if not located:
        w.eq(names, [], 'nofiles', 'files of a list without locations')
        return
    pr = [tuple(int(x) for x in p.split(b'/')) for p in o[-3][1:]]
    if stop == 0:
        w.eq((names, len(pr)), ([], 1), 'stopped', 'files and reports when told to stop at once')
        return
    bb = bnd([pts[k] for k in located])
    docs = {}
    for f in names:
        with open(os.path.join(out, f), 'rb') as h:
            e = reader.tree(h.read())
        w.check(e.tag == 'kml' and len(e.kids) == 1 and e.kids[0].tag == 'Document', 'file', '%s is a kml with a Document' % f)
        docs[f] = e.kids[0]
        w.count('files')
    w.check('1.kml' in docs, 'root', 'the root file 1.kml among %r' % names[:20])
    seen, place = {}, {}
    todo = [('1.kml', None, None, 'q0', ())]
    rank = {}
    while todo:
        f, want, pid, rid, above = todo.pop()
        w.check(f in docs, 'link', 'linked file %s exists' % f)
        w.check(f not in seen, 'once', 'file %s is linked once' % f)
        seen[f] = 1
        d = docs[f]
        b = box(d)
        if want is not None:
            w.check(all(abs(x - y) < 1e-9 for x, y in zip(b, want)), 'region', lambda: 'region of %s is %r, its link has %r' % (f, b, want))
        elif given:
            w.check(all(abs(x - y) < 1e-9 for x, y in zip(b, given)), 'given', lambda: 'root region %r, given %r' % (b, given))
        else:
            w.check(inside(bb, b) or all(abs(x - y) < 1e-9 for x, y in zip(b, bb)), 'rootregion', lambda: 'root region %r holds %r' % (b, bb))
        w.eq(kid(d, 'Region').attrs.get('id'), rid, 'regionid', 'id of the region of %s' % f)
        w.eq(txt(d, 'name'), rid, 'docname', 'name of %s' % f)
        l = kid(d, 'atom:link').attrs
        w.eq((l.get('href'), l.get('rel')), ('1.kml', 'self' if f == '1.kml' else 'up'), 'uplink', 'link of %s to the root' % f)
        folder = [k for k in d.kids if k.tag == 'Folder']
        w.eq(len(folder), 1, 'folder', 'folders in %s' % f)
        items = [txt(k, 'name') for k in folder[0].kids if k.tag in ('Placemark', 'Folder')]
        w.check(1 <= len(items) <= top, 'limit', lambda: '%d features in %s, limit %d' % (len(items), f, top))
        mine = []
        for nm in items:
            k = int(nm[1:])
            w.check(k not in place, 'twice', lambda: 'feature %d is in %s and %s' % (k, place.get(k), f))
            place[k] = f
            p = pts[k]
            w.check(p is not None and b[0] + 1e-9 >= p[0] >= b[1] - 1e-9 and b[2] + 1e-9 >= p[1] >= b[3] - 1e-9, 'within', lambda: 'feature at %r is in %s of region %r' % (p, f, b))
            mine.append(sc(scores[k]))
            w.count('placed')
        if given:
            ks = [int(nm[1:]) for nm in items]
            w.check(ks == sorted(ks), 'order', lambda: 'features in %s are %r' % (f, ks))
            mine = [-k for k in ks]
        if above and mine:
            w.check(min(above) >= max(mine), 'score', lambda: 'a feature of score %r lies below one of score %r' % (max(mine), min(above)))
        w.check(mine == sorted(mine, reverse=True), 'order', lambda: 'scores in %s are %r' % (f, mine))
        if len(rid) > 20:
            w.count('deep')
        q = quads(b)
        order = {'0': q[1], '1': q[0], '2': q[3], '3': q[2]}
        for k in d.kids:
            if k.tag != 'NetworkLink':
                continue
            r = kid(k, 'Region').attrs.get('id')
            w.check(r[:-1] == rid and r[-1] in order, 'childid', lambda: 'region %s linked from %s' % (r, rid))
            cb = box(k)
            w.check(all(abs(x - y) < 1e-9 for x, y in zip(cb, order[r[-1]])), 'quadrant', lambda: 'region %s is %r, its parent %r' % (r, cb, b))
            w.eq(txt(k, 'Link', 'viewRefreshMode'), 'onRegion', 'onregion', 'refresh mode of the link')
            w.eq((txt(kid(k, 'Region'), 'Lod', 'minLodPixels'), txt(kid(k, 'Region'), 'Lod', 'maxLodPixels')), ('256', '-1'), 'lod', 'Lod of the link')
            todo.append((txt(k, 'Link', 'href'), cb, f, r, tuple(above[-1:]) + ((min(mine),) if mine else ())))
    w.eq(sorted(seen), names, 'reached', 'files reached from the root')
    if stop is None or len(pr) <= stop:
        w.eq(sorted(place), located, 'all', 'features placed')
    else:
        w.count('stopped')
        w.eq(len(names), stop, 'stopped', 'files when told to stop after %d of %d' % (stop, len(pr)))
        w.check(pr[0][1] == n and [c for c, t in pr] == sorted(set(c for c, t in pr)), 'progress', lambda: 'progress %r' % pr[-5:])
    if given:
        w.check(kid(docs['1.kml'], 'LookAt') is None, 'view', 'view of the root of a region given')
        w.seen((pts, given))
        return
    v = kid(docs['1.kml'], 'LookAt')
    w.check(v is not None and abs(float(txt(v, 'latitude')) - (bb[0] + bb[1]) / 2) < 1e-9 and abs(float(txt(v, 'longitude') or 0) - (bb[2] + bb[3]) / 2) < 1e-9, 'view', 'view of the root')
    # progress: growing to the number placed
    w.check(how in ('none', 'null') or stop is not None and len(pr) > stop or len(pr) == len(names) and all(t == n for c, t in pr) and [c for c, t in pr] == sorted(set(c for c, t in pr)) and pr[-1][0] == len(located), 'progress',
            lambda: 'progress %r with %d files and %d features' % (pr[-5:], len(names), len(located)))
    w.seen((pts, top))
    w.sample({'features': n, 'limit': top, 'files': len(names)})


def trace(w, rng):
    w.count('traces')
    b = bnd([(lat(rng), lon(rng)), (lat(rng), lon(rng))]) if rng.random() < 0.7 else [90.0, -90.0, 180.0, -180.0]
    lod = rng.random() < 0.8
    x = '<Region><LatLonAltBox>%s<minAltitude>3</minAltitude></LatLonAltBox>%s</Region>' % (
        ''.join('<%s>%r</%s>' % (t, v, t) for t, v in zip(('north', 'south', 'east', 'west'), b)), '<Lod><minLodPixels>128</minLodPixels><maxLodPixels>900</maxLodPixels></Lod>' if lod else '')
    al = rng.random() < 0.4
    root = rng.choice(['', 'top.kml', 'r']) if not al else ''
    out = rng.choice(['', '/no/where', 'd/'])
    nulls = rng.choice([0, 0, 2, 3, 5])
    seed, depth, dens = rng.randrange(1 << 30), rng.choice([1, 2, 3, 5, 8]), rng.choice([0, 30, 50, 70, 100])
    o = w.do([['parse', 'r', x, 'plain'], ['dump', 'r'], ['regionate', 'r', str(seed), str(depth), str(dens), out, '1' if al else '0', root, str(nulls)], ['dump', 'r']])
    w.eq(o[3][0], o[1][0], 'input', 'the region given is not changed')
    ev = o[2][:-2]
    w.eq(o[2][-1], b'1', 'traceresult', 'result')
    pos = [0]
    ids = {}
    saved = {}

    def nxt():
        pos[0] += 1
        return ev[pos[0] - 1].decode()

    def visit(qid, want):
        e = nxt().split(' ')
        w.eq(e[:2], ['H', qid], 'asked', 'the next call')
        got = [float(v) for v in e[2:6]]
        if want is not None:
            w.check(all(abs(p - q) < 1e-9 for p, q in zip(got, want)), 'cell', lambda: 'region %s is %r, not %r' % (qid, got, want))
        elif not al:
            w.check(all(abs(p - q) < 1e-9 for p, q in zip(got, b)), 'cell', lambda: 'root region is %r, not %r' % (got, b))
        else:
            w.check(inside(b, got), 'aligned', lambda: 'aligned region %r of %r' % (got, b))
        w.eq(e[6:8], ['128', '900'] if lod else ['-', '-'], 'tracelod', 'Lod of the region')
        w.count('visited')
        if e[8] == '0':
            return False
        ids[qid] = len(ids) + 1
        q = quads(got)
        kids = [qid + str(k) for k, c in enumerate((q[1], q[0], q[3], q[2])) if visit(qid + str(k), c)]
        e = nxt()
        w.check(e in ('G ' + qid, 'N ' + qid), 'getfeature', lambda: 'the feature of %s is asked for after the children, not %r' % (qid, e))
        if e[0] == 'N':
            w.count('nofeature')
            return False            # no data after all: no file, no link
        f = nxt()
        fn = root if root and qid == 'q0' else '%d.kml' % ids[qid]
        w.eq(f, 'S ' + (out + ('' if out.endswith('/') else '/') if out else '') + fn, 'savename', 'the file saved for %s' % qid)
        d = reader.tree(nxt().encode()).kids[0]
        saved[qid] = d
        w.eq([txt(k, 'Link', 'href') for k in d.kids if k.tag == 'NetworkLink'], ['%d.kml' % ids[k] for k in kids], 'links', 'links of %s' % qid)
        w.eq([txt(k, 'name') for k in d.kids if k.tag == 'Placemark'], ['f_' + qid], 'content', 'features of %s' % qid)
        l = kid(d, 'atom:link').attrs
        w.eq((l.get('href'), l.get('rel')), (root or '1.kml', 'self' if qid == 'q0' else 'up'), 'tracelink', 'link to the root of %s' % qid)
        w.eq(kid(d, 'LookAt') is not None, al and qid == 'q0', 'traceview', 'view of %s' % qid)
        return True
    visit('q0', None)
    w.eq(pos[0], len(ev), 'extra', 'calls after the end')
    # helpers
    t = rng.randrange(4)
    o = w.do([['childregion', 'r', str(t), 'c'], ['dump', 'c'], ['cloneregion', 'r', 'd'], ['dump', 'd'], ['dump', 'r'], ['linebox', 'r', 'p', 'nm'], ['ser', 'p', 'raw'], ['alignbox'] + [repr(v) for v in b]])
    w.eq(o[3][0], o[4][0], 'clone', 'copy of a region')
    pm = reader.tree(o[6][0])
    c = [tuple(float(v) for v in p.split(',')[:2]) for p in txt(pm, 'LineString', 'coordinates').split()]
    r15 = [float('%.15g' % v) for v in b]
    w.eq(c, [(r15[3], r15[0]), (r15[2], r15[0]), (r15[2], r15[1]), (r15[3], r15[1]), (r15[3], r15[0])], 'linebox', 'the outline of the box %r' % b)
    w.eq(txt(pm, 'name'), 'nm', 'lineboxname', 'name')
    q = 'q0' + ''.join(rng.choice('0123') for _ in range(rng.choice([0, 1, 5, 24])))
    w.eq(w.do([['qid', q]])[0], [x.encode() for t in [q] + [q + k for k in '0123'] + ['q0'] for x in (t, str(len(t) - 1), '1' if t == 'q0' else '0')], 'qid', 'number %s of a region' % q)
    w.eq(o[7][0], b'1', 'alignok', 'alignment of %r' % b)
    aligned(w, b, o[7])
    w.seen((b, seed, depth, dens))


def aligned(w, b, o):
    g = [float(v) for v in o[1:5]]
    w.check(inside(b, g), 'alignin', 'aligned box')
    z = g[0] - g[1]
    w.check(z > 0 and z == g[2] - g[3] and math.frexp(360 / z)[0] == 0.5 and (180 - g[0]) % z == 0 and (180 - g[2]) % z == 0, 'alignnode', lambda: '%r aligned is %r, no node of the quadtree' % (b, g))
    if z > 360 / 2.0 ** 24:
        w.check(not any(inside(b, x) for x in quads(g)), 'aligntight', lambda: '%r aligned is %r, not the lowest node' % (b, g))


def helpers(w, rng):
    """The parts regionated files are made of, from regions with any fields."""
    r = gen.parsed(gen.G(rng, 3, rng.choice([0.3, 0.7, 1])).node('Region'))
    t = rng.randrange(4)
    href = rng.choice(['1.kml', 'a/b.kml', '', 'x&y', 'http://h/#f'])
    o = w.do([['parse', 'r', gen.Writer(rng).xml(r)], ['dump', 'r'], ['childregion', 'r', str(t), 'c'], ['dump', 'c'], ['cloneregion', 'r', 'd'], ['dump', 'd'],
              ['linebox', 'r', 'p', href], ['dump', 'p'], ['regionlink', 'r', 'n', href], ['dump', 'n'], ['regiondoc', 'r', 'm'], ['dump', 'm'], ['dump', 'r']])
    full = gen.dump(r)

    def same(k, n, what):
        w.eq(o[k][0].decode('utf-8', 'surrogateescape'), gen.dump(n), 'helper:' + what, '%s of %s' % (what, full))
    same(1, r, 'region')
    same(5, r, 'copy')
    same(12, r, 'region afterwards')
    c = gen.Node('Region')
    b = r.f.get('latlonaltbox')
    p = gen.Node('Placemark')
    p.f['name'] = href
    if b:
        n, s, e, x = b.f.get('north', 180.0), b.f.get('south', -180.0), b.f.get('east', 180.0), b.f.get('west', -180.0)
        q = copy.deepcopy(b)
        q.f['south' if t in (0, 1) else 'north'] = (n + s) / 2.0
        q.f['east' if t in (0, 2) else 'west'] = (e + x) / 2.0
        c.f['latlonaltbox'] = q
        l = gen.Node('LineString')
        l.f['tessellate'] = True
        k = gen.Node('Coordinates')
        k.f['coordinates'] = [(x, n, None), (e, n, None), (e, s, None), (x, s, None), (x, n, None)]
        l.f['coordinates'] = k
        p.f['geometry'] = l
        w.count('boxed')
    if 'lod' in r.f:
        c.f['lod'] = r.f['lod']
    same(3, c, 'child')
    same(7, p, 'outline')
    l = gen.Node('Link')
    l.f['href'] = href
    l.f['viewrefreshmode'] = S.ENUMS['viewRefreshMode'].index('onRegion')
    n = gen.Node('NetworkLink')
    n.f['region'] = r
    n.f['link'] = l
    same(9, n, 'link')
    n = gen.Node('Document')
    n.f['region'] = r
    same(11, n, 'document')
    la, lo = lat(rng), lon(rng)
    b = bnd([(la, lo), (la + 10.0 ** rng.randrange(-9, 1) * rng.random(), lo + 10.0 ** rng.randrange(-9, 1) * rng.random())])
    if b[0] <= 180 and b[2] <= 180:
        o = w.do([['alignbox'] + [repr(v) for v in b]])
        w.eq(o[0][0], b'1', 'alignok', 'alignment of %r' % b)
        aligned(w, b, o[0])
    w.count('helpers')


def lists(w, rng):
    n = rng.choice([0, 1, 5, 20] * 15 + [1300])
    pts = [p if rng.random() < 0.9 else None for p in points(rng, n)]
    scores = [rng.choice([None, rng.randrange(-3, 4), rng.choice([rng.randrange(-2147483648, 2147483648), 127, 128, 255, 256, -129, 65535])]) for _ in pts]
    ops, held = [['flclear']], []
    live = rng.random() < 0.4       # 'flnames' goes on with copies of the features
    m = {'l': [], 'a': [], 'b': []}
    for k, (p, s) in enumerate(zip(pts, scores)):
        f = feature(rng, 'n%d' % k, p, s)
        if live and k < 8 and f.startswith('<Placemark'):
            held.append(k)
        ops += [['parse', 'x', f, 'plain'], ['flpush', 'l', 'x'], ['copy', 'x', 'h%d' % k] if k in held else ['drop', 'x']]
        m['l'].append(k)
    hist = []
    for _ in range(rng.choice([2, 6, 12])):
        w.count('listops')
        src = rng.choice('llab')
        r = rng.random()
        if held and rng.random() < 0.25:            # a feature of a list moves, or gets another score
            k, q, v = rng.choice(held), (lat(rng), lon(rng)), rng.randrange(-9, 10)
            if rng.random() < 0.7:
                ops += [['parse', 'g', '<Point><coordinates>%r,%r</coordinates></Point>' % (q[1], q[0]), 'plain'], ['cset', 'h%d' % k, 'geometry', 'g']]
                h = ('move', src, k, q)
            else:
                ops.append(['score', 'h%d' % k, str(v)])
                h = ('score', src, k, v)
            w.count('moved')
        elif r < 0.2:
            ops.append(['flsort', src])
            h = ('sort', src)
        elif r < 0.75:
            b = bnd([(lat(rng), lon(rng)), (lat(rng), lon(rng))])
            loc = [p for p in pts if p]
            if loc and rng.random() < 0.6:
                b = bnd([rng.choice(loc), rng.choice(loc)])
            if n > 100 and rng.random() < 0.6:
                b = [90.0, -90.0, 180.0, -180.0]
            top = rng.choice([0, 5000] if live else [0, 1, 2, 5, 1000])
            dst = rng.choice(['a', 'b', ''])
            if dst == src:
                continue
            if rng.random() < 0.5:
                ops.append(['flbboxsplit', src] + [repr(v) for v in b] + [str(top), dst])
            else:
                out = -1
                if rng.random() < 0.2:              # an edge left out is at its default
                    b, out = list(b), rng.randrange(4)
                    b[out] = [180.0, -180.0, 180.0, -180.0][out]
                x = '<Region><LatLonAltBox>%s</LatLonAltBox></Region>' % ''.join('<%s>%r</%s>' % (t, v, t) for k, (t, v) in enumerate(zip(('north', 'south', 'east', 'west'), b)) if k != out)
                ops += [['parse', 'g', x, 'plain'], ['flregionsplit', src, 'g', str(top), dst]]
            h = ('split', src, dst, b, top)
        else:
            ops.append(['flbbox', src])
            h = ('bbox', src)
        hist.append((len(ops) - 1, h))
        ops += ([] if live else [['flnames', k] for k in 'lab']) + [['flsize', k] for k in 'lab']
    o = w.do(ops + [['flnames', k] for k in 'lab'] + [['flclear']])
    for at, h in hist:
        src = h[1]
        if not live:
            names = {k: [int(x[1:]) for x in o[at + 1 + j]] for j, k in enumerate('lab')}
        if h[0] == 'move':
            pts[h[2]] = h[3]
        elif h[0] == 'score':
            scores[h[2]] = h[3]
            w.eq(int(o[at][0]), h[3], 'scored', 'score as set')
        elif h[0] == 'sort' and live:
            m[src] = sorted(m[src], key=lambda k: -sc(scores[k]))
        elif h[0] == 'sort':
            got = names[src]
            w.eq(sorted(got), sorted(m[src]), 'sortset', 'features after sorting')
            s = [sc(scores[k]) for k in got]
            w.check(s == sorted(s, reverse=True), 'sorted', lambda: 'scores after sorting are %r' % s)
            m[src] = got
        elif h[0] == 'split':
            dst, b, top = h[2:]
            took, rest = [], []
            for k in m[src]:
                p = pts[k]
                if p and b[0] >= p[0] >= b[1] and b[2] >= p[1] >= b[3] and (top == 0 or len(took) < top):
                    took.append(k)
                else:
                    rest.append(k)
            m[src] = rest
            if dst:
                m[dst] = m[dst] + took
            w.eq(int(o[at][0]), len(took), 'splitcount', 'number split by %r, at most %d' % (b, top))
        else:
            loc = [pts[k] for k in m[src] if pts[k]]
            if loc:
                w.eq([float(x) for x in o[at]], bnd(loc), 'listbox', 'bounding box of the list')
        for j, k in enumerate('lab'):
            if not live:
                w.eq(names[k], m[k], 'list', 'list %s' % k)
            w.eq(int(o[at + (1 if live else 4) + j][0]), len(m[k]), 'size', 'size of list %s' % k)
    for j, k in enumerate('lab'):
        names = [int(x[1:]) for x in o[len(ops) + j]]
        w.eq(sorted(names) if live else names, sorted(m[k]) if live else m[k], 'list', 'list %s at the end' % k)
    w.seen((pts, scores))
