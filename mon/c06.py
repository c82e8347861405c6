"""Coordinate text: every tuple of the documented grammar becomes one point, in order, with its exact values."""
from . import gen, schema as S
ID = 'C06'
RULE = ('coordinate strings generated from known point lists: tuples of 2 or 3 numbers in every decimal spelling, any whitespace around commas and '
        'between tuples, 0 to 20000 tuples, numbers of up to 3000 characters; non-trivial: at least one tuple; distinct by text')
CASES = {'quick': 36000, 'thorough': 200000}
MIN = {'checks': 10000, 'points': 50000, 'blank': 100, 'huge': 5}
WS = [' ', '\n', '\t', '\r\n', '  ', '\n\t\t', ' \n ', '\r', '&#13;', '\n\n\n']


def num(rng):
    d = gen.g_double(rng)
    if abs(d) > 1e20 or (d and abs(d) < 1e-20):
        d = round(rng.uniform(-180, 180), 3)
    r = rng.random()
    s = repr(d)
    if r < 0.5:
        if s.endswith('.0'):
            s = rng.choice([s, s[:-2], s[:-1]])
        return d, s
    if r < 0.6 and 'e' not in s and s.lstrip('-').startswith('0.') and len(s.lstrip('-')) > 2:
        return d, s.replace('0.', '.', 1)
    if r < 0.7:
        t = '%.14e' % d
        t = t.replace('e', rng.choice('eE'))
        return float(t), t
    if r < 0.75 and d >= 0:
        return d, '+' + s
    if r < 0.8:
        t = s if ('.' in s and 'e' not in s) else '%d.' % int(d) if abs(d) < 1e15 else s
        if 'e' in t:
            return float(t), t
        return float(t), t + '0' * rng.choice([1, 10, 300, 1000, 1023, 1024, 3000])
    if r < 0.85:
        t = '%s%s%d' % (rng.choice(['', '-']), '0' * rng.choice([1, 5, 1100]), rng.randrange(181))
        return float(t), t
    if r < 0.9:
        t = '%.17g' % rng.uniform(-180, 180)
        return float(t), t
    return d, s


def sep(rng, ws):
    return ''.join(rng.choice(ws) for _ in range(rng.choice([1, 1, 1, 2, 4])))


def build(rng, npts, ws, comma):
    pts, out = [], []
    dims = rng.choice([(2,), (3,), (2, 3)])
    for _ in range(npts):
        v = [num(rng) for _ in range(rng.choice(dims))]
        pts.append(tuple(x[0] for x in v) + ((None,) if len(v) == 2 else ()))
        t = v[0][1]
        for x in v[1:]:
            t += rng.choice(comma) + x[1]
        out.append(t)
    s = sep(rng, ws) if rng.random() < 0.5 else ''
    s += ''.join(t + sep(rng, ws) for t in out[:-1]) + (out[-1] if out else '')
    s += sep(rng, ws) if rng.random() < 0.5 else ''
    return pts, s


def fmt(pts):
    return [('%s,%s,%s,%d' % (gen.g17(a), gen.g17(b), gen.g17(c if c is not None else 0.0), c is not None)) for a, b, c in pts]


def case(w, rng, i):
    r = rng.random()
    npts = rng.choice([0, 1, 1, 2, 3, 5, 10, 40])
    if r < 0.003:
        npts = rng.choice([2000, 20000])
        w.count('huge')
    ws = rng.choice([[' '], ['\n'], ['\t'], WS, WS, WS])
    comma = rng.choice([[','], [','], [', ', ' ,', ' , ', ','], [',\n', '\t,', ' ,\r\n', ','], [','] * 4 + [' ' * 7 + ',', ',' + '\n' + '\t' * 12, ' ' * 40 + ',' + ' ' * 300, '\n' * 1100 + ',']])
    if npts > 100:
        base, _ = [], 0
        pts = [(round(rng.uniform(-180, 180), 5), round(rng.uniform(-90, 90), 5), float(rng.randrange(9000))) for _ in range(npts)]
        r = rng.random()
        if r < 0.3:             # points repeated, as of a thing at rest
            c = rng.choice([2, 3, 1000])
            pts = [pts[k // c] for k in range(npts)]
        elif r < 0.4:
            pts = pts[:1] * npts
        text = rng.choice([' ', '\n', '\n\t'])
        text = text.join('%r,%r,%r' % p for p in pts)
    else:
        pts, text = build(rng, npts, ws, comma)
    if not pts:
        w.count('blank')
    holder = rng.choice(['Point', 'LineString', 'LinearRing'])
    style = rng.random()
    if style < 0.15 and '&' not in text:
        body = '<![CDATA[%s]]>' % text
    elif style < 0.3 and len(text) > 2 and '&' not in text:
        # a comment may split the text anywhere
        k = rng.randrange(len(text))
        body = text[:k] + '<!-- 9,9,9 -->' + text[k:]
    else:
        body = text
    xml = '<Placemark><%s><coordinates>%s</coordinates></%s></Placemark>' % (holder, body, holder)
    o = w.do([['parse', 'r', xml], ['cget', 'r', 'geometry', 'g'], ['cget', 'g', 'coordinates', 'c'], ['size', 'c', 'coordinates'], ['dump', 'c'], ['ser', 'r', 'raw']],
             timeout=30)
    w.check(o[0][0] == b'ok' and o[2][0] == b'ok', 'rejected', lambda: 'rejected: %r' % xml[:1000])
    w.eq(int(o[3][0]), len(pts), 'count', 'number of points in %r' % text[:600])
    exp = '(Coordinates' + ''.join(' coordinates+="%s"' % p for p in fmt(pts)) + ')'
    w.eq(o[4][0].decode(), exp, 'points', 'points of %r' % text[:600])
    # what is written is read back as the same points (to the written precision)
    o2 = w.do([['parse', 'q', o[5][0]], ['cget', 'q', 'geometry', 'g'], ['cget', 'g', 'coordinates', 'c'], ['dump', 'c']], timeout=30)
    p15 = [tuple(float('%.15g' % (0.0 if x is None else x)) for x in p) for p in pts]
    exp = '(Coordinates' + ''.join(' coordinates+="%s"' % p for p in fmt(p15)) + ')'
    w.eq(o2[3][0].decode(), exp, 'again', 'points written and read back from %r' % text[:600])
    w.count('points', len(pts))
    if pts:
        w.seen(text)
        w.sample(text[:200])
    # gx:coord / gx:angles: whitespace separated
    if rng.random() < 0.3:
        ts, e1, e2 = '', [], []
        for _ in range(rng.choice([1, 2, 5])):
            v = [num(rng) for _ in range(rng.choice([2, 3, 3]))]
            if any(x[1].startswith('+') for x in v):
                continue
            t = sep(rng, WS).join(x[1] for x in v)
            if rng.random() < 0.4:
                t = sep(rng, WS) + t + sep(rng, WS)
            p = tuple(x[0] for x in v) + ((None,) if len(v) == 2 else ())
            if rng.random() < 0.5:
                ts += '<gx:coord>%s</gx:coord>' % t
                e1.append(p)
            else:
                ts += '<gx:angles>%s</gx:angles>' % t
                e2.append(p)
        o = w.do([['parse', 't', '<gx:Track>%s</gx:Track>' % ts], ['dump', 't']])
        exp = '(GxTrack' + ''.join(' gx_angles+="%s"' % p for p in fmt(e2)) + ''.join(' gx_coord+="%s"' % p for p in fmt(e1)) + ')'
        w.eq(o[1][0].decode(), exp, 'track', 'track points of %r' % ts[:600])
        w.count('points', len(e1) + len(e2))
    if rng.random() < 0.2:
        vec(w, rng)


def vec(w, rng):
    """A point of the API: three variables and whether there is an altitude."""
    v = lambda: rng.choice([0.0, -1.5, 180.0, rng.uniform(-180, 180), rng.uniform(-1e6, 1e6)])
    n = rng.choice([0, 2, 3])
    p = [v() for _ in range(n)]
    op = ['vec3', str(n)] + [repr(x) for x in p]
    st = (p + [0.0] * 3)[:3] + [n == 3]
    first = list(st)
    exp = []

    def tell():
        g = [gen.g17(x) for x in st[:3]]
        eq = '1' if st[:3] == first[:3] else '0'
        exp.append((','.join(g) + ',%d,' % st[3] + ','.join(g) + ',%s%s1' % (eq, eq)).encode())
    tell()
    for _ in range(rng.randrange(8)):
        k, x = rng.choice(['0', '1', '2', 'alt', 'clear', '3', '-1']), rng.choice([v(), rng.choice(first[:3])])
        op += [k, repr(x)]
        if k in '01':
            st[int(k)] = x
        elif k in ('2', 'alt'):
            st[2:] = [x, True]
        elif k == 'clear':
            st[2:] = [0.0, False]
        tell()
    o = w.do([op])
    w.eq(o[0], exp, 'vec3', repr(op))
    w.count('vectors')
