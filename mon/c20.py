"""CSV and GPX data become exactly the placemarks and points they describe, line by line."""
import os
import re
from . import gen
ID = 'C20'
RULE = ('CSV texts written from random tables (quoted, escaped, padded, comments, short and long rows, any column order and letter case, bad '
        'numbers, all line endings), pipe-separated files, and GPX tracks with missing, repeated and foreign parts; every callback compared '
        'with the table written; distinct by text')
CASES = {'quick': 72000, 'thorough': 400000}
MIN = {'checks': 200000, 'rows': 60000, 'placemarks': 20000, 'badrows': 10000, 'quoted': 20000, 'stopped': 1500, 'points': 15000, 'pipes': 8000}
WS = ' \t\v\f'


def clean(s):
    return ''.join(c for c in s if c not in '\r\n\0' and (ord(c) >= 32 or c == '\t') and not 0xd800 <= ord(c) < 0xe000 and ord(c) not in (0xfffe, 0xffff, 0x7f))


def cell(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(['', 'a', 'foo', 'a b', '0', '-1', 'x,y', '"q"', ',', '"', '""', 'It\'s', '#x', 'a|b', ' lead', 'trail ', '\ttab', '<b>', '&amp;', 'caf\u00e9'])
    return clean(gen.g_string(rng))[:60]


def write(w, rng, c, last=False):
    """one cell of CSV text"""
    q = c != c.strip(WS + ' ') or ',' in c or c[:1] == '"' or rng.random() < 0.25
    if c.strip() != c:
        q = True
    pad = rng.choice(['', '', '', ' ', '\t ', '  '])
    if q:
        w.count('quoted')
        return pad + '"' + c.replace('"', '""') + '"' + rng.choice(['', '', ' ', ' junk'])
    return pad + c + rng.choice(['', '', ' ', '\t'])


def number(rng):
    r = rng.random()
    if r < 0.3:
        return str(rng.randrange(-90, 91))
    if r < 0.8:
        return '%.*f' % (rng.choice([1, 4, 9]), rng.uniform(-180, 180))
    return rng.choice(['0', '-0.5', '.5', '-.25', '1e1', '1.5e-3', '007', '12.'])


NOT = ['', 'x', '+1', '-', '.', '-x', 'north', '- 1', '--1', 'e5', ',', 'N37', '#']


def esc(s):
    return gen.esc_text(s).replace('\r', '&#13;')


def case(w, rng, i):
    r = rng.random()
    if r < 0.55:
        csv(w, rng)
    elif r < 0.7:
        pipes(w, rng)
    elif r < 0.85:
        gpx(w, rng)
    else:
        strings(w, rng)


def mix(rng, s):
    return ''.join(c.upper() if rng.random() < 0.3 else c for c in s)


def csv(w, rng):
    cols = []
    if rng.random() < 0.92:
        cols.append('latitude')
    if rng.random() < 0.95:
        cols.append('longitude')
    for c, p in (('name', 0.6), ('description', 0.5), ('feature-id', 0.4), ('style-id', 0.4)):
        if rng.random() < p:
            cols.append(c)
    for _ in range(gen.many(rng, [0, 0, 1, 2, 4], (20, 60), 0.01)):
        cols.append(rng.choice(['height', 'Foo', 'x y', 'a,b', '"', 'lat', 'id', 'latitude ', '\u00e9']) if rng.random() < 0.7 else cell(rng))
    rng.shuffle(cols)
    if rng.random() < 0.08 and cols:
        cols.append(rng.choice(cols))
    nl = rng.choice(['\n', '\r\n', '\r', '\n\n', '\r\n\r\n'])
    known = ('latitude', 'longitude', 'name', 'description', 'feature-id', 'style-id')
    head = [mix(rng, c) if c in known else c for c in cols]
    where = {}
    data = []
    for k, c in enumerate(head):
        if c.lower() in known and c.isascii():
            where[c.lower()] = k
        else:
            data.append((k, c))
    text = line(w, rng, head)
    if not text:
        return
    rows, exp = [], []
    for _ in range(gen.many(rng, [0, 1, 2, 5, 12], (100, 400), 0.01)):
        row = []
        for k in range(len(head)):
            if k == where.get('latitude') or k == where.get('longitude'):
                row.append(number(rng) if rng.random() < 0.93 else rng.choice(NOT))
            else:
                row.append(cell(rng))
        r = rng.random()
        if r < 0.06:
            row[0] = '#' + row[0]
        elif r < 0.12 and len(row) > 1:
            row.pop()
        elif r < 0.18:
            row.append(cell(rng))
        t = line(w, rng, row)
        if not t:
            continue
        rows.append(t)
        exp.append(row)
        w.count('rows')
    if rng.random() < 0.3:          # any line ends, and any blank lines between
        nls = [''.join(rng.choice(['\n', '\r\n', '\r']) for _ in range(rng.choice([1, 1, 2, 3]))) for _ in range(len(rows) + 1)]
        full = ''.join(a + b for a, b in zip([text] + rows, nls))
    else:
        full = nl.join([text] + rows) + (nl if rng.random() < 0.6 else '')
    stop = rng.randrange(1, len(rows) + 1) if rows and rng.random() < 0.2 else 0
    o = w.do([['csvsplit', full], ['csv', full, str(stop)]])
    want = []
    for r in [head] + exp:
        want += ['R%d' % len(r)] + r
    w.eq([x.decode('utf-8', 'surrogateescape') for x in o[0]], want, 'split', 'rows of %r' % full[:600])
    ev, ret = o[1][:-2], o[1][-1]
    if 'latitude' not in where or 'longitude' not in where:
        w.eq((ev, ret), ([b'1', b'2', b'-'], b'0'), 'nolatlon', 'a table with no coordinates')
        return
    got = [ev[k:k + 3] for k in range(0, len(ev), 3)]
    n = stop or len(exp)
    if stop:
        w.count('stopped')
    w.eq((len(got), ret), (n, b'0' if stop else b'1'), 'calls', 'number of lines handled and result')
    st, a, b = [], [], []
    for k, row in enumerate(exp[:n]):
        s, x = placemark(row, head, where, data)
        w.count('placemarks' if s == 0 else 'badrows')
        st.append((str(k + 2).encode(), str(s).encode()))
        if s == 0:
            a += [['parse', 'a', got[k][2], 'plain'], ['dump', 'a']]
            b += [['parse', 'a', x, 'plain'], ['dump', 'a']]
    w.eq([(g[0], g[1]) for g in got], st, 'status', 'line numbers and status of %r' % full[:600])
    if a:
        p = w.do(a + b)
        h = len(p) // 2
        for k in range(1, h, 2):
            w.eq(p[k][0], p[h + k][0], 'placemark', 'placemark of a line of %r' % full[:600])
    w.seen(full)
    w.sample({'csv': full[:200]})


def line(w, rng, row):
    t = ','.join(write(w, rng, c) for c in row)
    if not t or t.strip(WS) == '' and ',' not in t:
        return ''
    # an unquoted last cell which is all blank: spell it as empty
    if row and row[-1] == '' and t[-1:] in WS and ',' in t:
        return t.rstrip(WS) if t.rstrip(WS).endswith(',') else t
    return t


def isnum(s):
    return re.match(r'-?\.?[0-9]', s)


def placemark(row, head, where, data):
    if row and row[0][:1] == '#':
        return 5, None
    if len(row) != len(head):
        return 4, None
    la, lo = row[where['latitude']], row[where['longitude']]
    if not isnum(la) or not isnum(lo):
        return 3, None
    x = ''
    i = where.get('feature-id')
    x += '<Placemark%s>' % (' id="%s"' % gen.esc_attr('feature-' + row[i]) if i is not None and row[i] else '')
    if 'name' in where:
        x += '<name>%s</name>' % esc(row[where['name']])
    if 'description' in where:
        x += '<description>%s</description>' % esc(row[where['description']])
    i = where.get('style-id')
    if i is not None and row[i]:
        x += '<styleUrl>%s</styleUrl>' % esc('style.kml#style-' + row[i])
    if data:
        x += '<ExtendedData>%s</ExtendedData>' % ''.join('<Data name="%s"><value>%s</value></Data>' % (gen.esc_attr(c), esc(row[k])) for k, c in data)
    x += '<Point><coordinates>%.15g,%.15g,0</coordinates></Point></Placemark>' % (float(lo), float(la))
    return 0, x


def pipes(w, rng):
    w.count('pipes')
    rows, exp = [], []
    for _ in range(gen.many(rng, [1, 2, 4, 9], (100,), 0.01)):
        p = [cell(rng).replace('|', '/') for _ in range(rng.choice([5, 5, 6, 7, 5, 3, 1]))]
        if len(p) >= 5:
            p[0] = str(rng.randrange(100))
            p[1], p[2] = number(rng), number(rng)
            exp.append((int(p[0]), p))
        t = '|'.join(p)
        rows.append(t)
        if rng.random() < 0.1:
            rows.append('')
    file = rng.random() < 0.5
    if file:
        f = os.path.join(w.scratch, 'p.csv')
        with open(f, 'wb') as h:
            h.write(('\n'.join(rows) + rng.choice(['', '\n'])).encode('utf-8', 'surrogateescape'))
        ops = [['csvfile', f, 'a']]
    else:
        ops = [['csvlines', 'a'] + rows]
    x = '<Folder>'
    for s, p in exp:
        x += '<Placemark><name>%s</name><description>%s</description>%s<ExtendedData><Data name="kml.FeatureScore"><value>%s</value></Data></ExtendedData><Point><coordinates>%.15g,%.15g</coordinates></Point></Placemark>' % (
            esc(p[3]), esc(p[4]), '<styleUrl>%s</styleUrl>' % esc(p[5]) if len(p) > 5 else '', esc(p[0]), float(p[2]), float(p[1]))
    o = w.do(ops + [['dump', 'a'], ['parse', 'b', x + '</Folder>', 'plain'], ['dump', 'b']])
    w.eq(o[1][0], o[3][0], 'pipes', 'placemarks of %r' % rows)
    w.seen(rows)


def gpx(w, rng):
    parts, exp = [], []
    for _ in range(gen.many(rng, [0, 1, 3, 8], (100, 400), 0.01)):
        r = rng.random()
        if r < 0.12:
            parts.append(rng.choice(['<time>2001</time>', '<ele>99</ele>', '<wpt lat="1" lon="2"><ele>5</ele><time>t</time></wpt>', '<name>x</name>', '</trkseg><trkseg>', '<!-- c -->']))
            continue
        at = []
        la, lo = number(rng), number(rng)
        has = [rng.random() < 0.9, rng.random() < 0.9]
        if has[0]:
            at.append('lat="%s"' % la)
        if has[1]:
            at.append('lon="%s"' % lo)
        if rng.random() < 0.1:
            at.append('x="1"')
        rng.shuffle(at)
        inner, alt, when = [], None, ''
        if rng.random() < 0.6:
            alt = number(rng)
            inner.append('<ele>%s%s%s</ele>' % (rng.choice(['', ' ', '\n']), alt, rng.choice(['', ' '])))
        if rng.random() < 0.6:
            when = esc(cell(rng))
            inner.append('<time>%s</time>' % when)
        if rng.random() < 0.3:
            inner.append(rng.choice(['<speed>7</speed>', '<extensions><a>1</a></extensions>', 'text', '<name>n</name>']))
        rng.shuffle(inner)
        parts.append('<trkpt %s>%s</trkpt>' % (' '.join(at), ''.join(inner)))
        if all(has):
            exp.append((float(lo), float(la), float(alt) if alt is not None else None, when))
    t = '<gpx><trk><trkseg>%s</trkseg></trk></gpx>' % ''.join(parts)
    if rng.random() < 0.1:
        t = t.replace('<ele>', '<ele></ele><ele>', 1)
    o = w.do([['gpx', t]])[0]
    w.eq(o[0], b'1', 'gpxparse', t[:300])
    got = []
    for x in o[1:]:
        x = x.decode('utf-8', 'surrogateescape')
        p, when = x.split('|', 1)
        lo, la, al = p.split(',')
        got.append((float(lo), float(la), None if al == '-' else float(al), esc(when)))
    w.eq(got, exp, 'gpx', 'points of %s' % t[:800])
    w.count('points', len(exp))
    w.seen(t)


def strings(w, rng):
    d = rng.choice(['|', ',', '::', 'ab', '--', 'aa'])
    s = ''.join(rng.choice(['a', 'b', '|', ',', ':', '-', 'x', ' ', '']) for _ in range(rng.choice([0, 1, 5, 20])))
    q = rng.choice(['|', '\t', ';'])
    row = [clean(cell(rng)).replace(q, '_').strip(' \t\v\f\x85\xa0') for _ in range(gen.many(rng, [1, 2, 5], (20, 100), 0.01))]
    row = [c if c == c.strip() else 'x' for c in row]
    if row[-1] == '' and len(row) == 1:
        row = ['x']
    n = rng.choice([number(rng), rng.choice(NOT)])
    o = w.do([['splitstr', s, d], ['splitquoted', q.join(row), q], ['todouble', n], ['endswith', s, d], ['caseeq', mix(rng, 'Latitude-\u00e9'), mix(rng, 'latitude-\u00e9')], ['caseeq', s, s + 'x']])
    w.eq([x.decode() for x in o[0]], s.split(d), 'splitstr', '%r split at %r' % (s, d))
    w.eq([x.decode('utf-8', 'surrogateescape') for x in o[1]], row, 'splitq', '%r split at %r' % (q.join(row), q))
    ok = bool(isnum(n))
    w.eq((o[2][0], o[2][2]), (b'1' if ok else b'0',) * 2, 'isnum', 'is %r a number' % n)
    if ok:
        w.eq(float(o[2][1]), float(n), 'number', 'value of %r' % n)
    w.eq(o[3][0], b'1' if s and s.endswith(d) else b'0', 'endswith', '%r ends with %r' % (s, d))
    w.eq(o[5][0], b'0', 'caseeq', 'strings of different length')
    w.seen((s, d, row))
