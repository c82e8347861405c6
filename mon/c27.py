"""Colours, times and attribute sets keep their value between text and number."""
import calendar
import datetime
import re
import xml.parsers.expat
from . import gen
ID = 'C27'
RULE = ('random 32-bit colours in every spelling, component by component and through documents; every kind of date from year 1000 to 9999 and damaged ones; '
        'random attribute sets, and histories of setting, reading, cutting, splitting, merging and copying them as values of each type; distinct by input')
CASES = {'quick': 180000, 'thorough': 1500000}
MIN = {'checks': 160000, 'colours': 20000, 'dates': 15000, 'before1970': 3000, 'leapdays': 300, 'baddates': 3000, 'attributes': 5000, 'sets': 4000, 'setcalls': 30000}
EPOCH = datetime.datetime(1970, 1, 1)


def case(w, rng, i):
    r = rng.random()
    if r < 0.4:
        colour(w, rng)
    elif r < 0.8:
        date(w, rng)
    elif r < 0.9:
        attributes(w, rng)
    else:
        sets(w, rng)


def u32(rng):
    return rng.choice([rng.getrandbits(32), rng.choice([0, 0xffffffff, 0x80000000, 0x7fffffff, 0xff, 0xff00, 0xff0000, 0xff000000, 0x01020304]), 1 << rng.randrange(32)])


def swap(v):
    return (v & 0xff00ff00) | (v >> 16 & 0xff) | (v & 0xff) << 16


def colour(w, rng):
    w.count('colours')
    v, x = u32(rng), u32(rng)
    if rng.random() < 0.2:
        x = v
    o = [int(a) if k not in (2, 3) else a.decode() for k, a in enumerate(w.do([['colorint', str(v), str(x)]])[0])]
    a, b, g, r = v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255
    exp = [v, swap(v), '%08x' % v, '%08x' % swap(v), v, v, v, v, int(v == x), int(v != x), int(v < x), int(v > x), v,
           x & ~0xff00 | g << 8, x & 0xffffff | a << 24, x & 0xff00ffff | b << 16, x & 0xffffff00 | r]
    w.eq(o, exp, 'colour', 'colour %08x, other %08x' % (v, x))
    w.eq([int(z) for z in w.do([['color2', str(v), str(x)]])[0]], [v] * 6 + [0xffffffff], 'assign', 'colour %08x assigned over %08x, and the default' % (v, x))
    t = ''.join(rng.choice([c, c.upper()]) for c in '%08x' % v)
    t = rng.choice(['', ' ', '\n\t ', '   ']) + rng.choice(['', '', '#']) + t + rng.choice(['', ' ', '\n', 'zz', '0', ' ff'])
    o = w.do([['color', t], ['parse', 'x', '<LineStyle><color>%s</color></LineStyle>' % t, 'plain'], ['get', 'x', 'color'], ['ser', 'x', 'raw']])
    w.eq([k.decode() for k in o[0]], [str(v), str(swap(v)), '%08x' % v, '%08x' % swap(v), str(r), str(g), str(b), str(a), '1'], 'text', 'colour %r' % t)
    w.eq((o[2][0], o[3][0]), (b'%08x' % v, b'<LineStyle><color>%08x</color></LineStyle>' % v), 'document', 'colour %r in a document' % t)
    w.seen((v, t))


def date(w, rng):
    if rng.random() < 0.2:
        bad(w, rng)
        return
    w.count('dates')
    y = rng.choice([rng.randrange(1000, 10000), rng.randrange(1970, 2040), rng.randrange(1880, 1971), rng.choice([1900, 2000, 2100, 1600, 1970, 1969, 2004, 2400, 9999, 1000])])
    m = rng.randrange(1, 13)
    d = rng.choice([1, rng.randrange(1, 1 + calendar.monthrange(y, m)[1]), calendar.monthrange(y, m)[1]])
    if rng.random() < 0.15 and calendar.isleap(y):
        m, d = rng.choice([(2, 29), (3, 1), (2, 28), (12, 31)])
    t = datetime.datetime(y, m, d, *rng.choice([(0, 0, 0), (23, 59, 59), (rng.randrange(24), rng.randrange(60), rng.randrange(60))]))
    if y < 1970:
        w.count('before1970')
    if (m, d) == (2, 29):
        w.count('leapdays')
    s = t.strftime('%Y-%m-%dT%H:%M:%SZ')
    o = [x.decode() for x in w.do([['datetime', s]])[0]]
    n = str(int((t - EPOCH).total_seconds()))
    w.eq(o, ['ok', n, n, s[:10], s[11:19], s], 'date', s)
    w.seen(s)


def bad(w, rng):
    w.count('baddates')
    s = '2008-10-03T09:25:42Z'
    r = rng.random()
    if r < 0.3:
        s = s[:rng.randrange(len(s))]
    elif r < 0.6:
        k = rng.randrange(len(s))
        s = s[:k] + rng.choice('xX?:\xe9\n') + s[k + 1:]
        if s[4] == '-' and s[7] == '-' and s[10] == 'T' and s[13] == ':' and s[16] == ':' and s[19] == 'Z' and s.replace('\n', '0') != s:
            return                  # white space before a number is allowed
        if s == '2008-10-03T09:25:42Z':
            return
    else:
        s = rng.choice(['', 'now', '2008-13-01T00:00:00Z', '2008-00-01T00:00:00Z', '2008-10-32T00:00:00Z', '2008-10-00T00:00:00Z', '2008-10-03T24:00:00Z', '2008-10-03T00:60:00Z',
                        '2008-10-03T00:00:99Z', '2008-10-03', '2008-10', '2008', '2008-10-03T00:00:00+01:00', '2008-10-03 00:00:00Z', 'T', '-', 'Z' * 500, '10/03/2008'])
    o = [x.decode() for x in w.do([['datetime', s]])[0]]
    w.eq(o, ['null', '0'], 'baddate', repr(s))
    w.seen(s)


def attributes(w, rng):
    w.count('attributes')
    ks = rng.sample(['id', 'a', 'b', 'x:a', 'x:b', 'xx:a', 'xmlns', 'xmlns:x', 'z', '\u00e9', 'x', 'xmlns:', ':a', 'x:a:b', 'xmlns:x:y', 'x::a'], rng.choice([0, 1, 3, 7]))
    if rng.random() < 0.01:
        ks += ['%sm%d' % (rng.choice(['', 'x:', 'xmlns:']), k) for k in range(rng.choice([50, 130, 300]))]
    kv = [(k, gen.g_string(rng)) for k in ks]
    if rng.random() < 0.2 and kv:
        kv.append((kv[0][0], 'again'))
    flat = [x for p in kv for x in p]
    m = dict(kv)
    pre = rng.choice(['x', 'xmlns', 'xx', '', 'nope', 'a'])
    o = w.do([['attrs'] + flat, ['attrsplit', pre] + flat, ['attrs'] + flat + ['odd']])
    if not flat:
        return
    w.eq(o[2], o[0], 'odd', 'attributes with an unpaired last string')
    w.eq(o[0][0], b'ok', 'create', 'attributes of %r' % flat)
    w.eq(int(o[0][1]), len(m), 'size', 'number of attributes')
    g = [x.decode('utf-8', 'surrogateescape') for x in o[0][4:]]
    w.eq(dict(zip(g[::2], g[1::2])), m, 'kept', 'attributes of %r' % flat)
    w.eq(len(g), 2 * len(m), 'kept', 'attributes listed')
    w.eq(o[0][3], o[0][2], 'clone', 'copy')
    cut = [x.decode('utf-8', 'surrogateescape') for x in o[1]]
    at = int(cut[0])
    a, b = cut[1:1 + at], cut[1 + at:]
    p = pre + ':'
    w.eq(dict(zip(a[::2], a[1::2])), {k[len(p):]: v for k, v in m.items() if k.startswith(p)}, 'split', 'attributes of prefix %r in %r' % (pre, m))
    w.eq(dict(zip(b[::2], b[1::2])), {k: v for k, v in m.items() if not k.startswith(p)}, 'rest', 'the other attributes in %r' % m)
    w.seen(flat)


NS = {'app': 'http://www.w3.org/2007/app', 'atom': 'http://www.w3.org/2005/Atom', 'batch': 'http://schemas.google.com/gdata/batch', 'docs': 'http://schemas.google.com/docs/2007',
      'exif': 'http://schemas.google.com/photos/exif/2007', 'gd': 'http://schemas.google.com/g/2005', 'georss': 'http://www.georss.org/georss', 'gml': 'http://www.opengis.net/gml',
      'gphoto': 'http://schemas.google.com/photos/2007', 'gpx': 'http://www.topografix.com/GPX/1/0', 'gx': 'http://www.google.com/kml/ext/2.2', 'gs': 'http://schemas.google.com/spreadsheets/2006',
      'kml': 'http://www.opengis.net/kml/2.2', 'media': 'http://search.yahoo.com/mrss/', 'openSearch': 'http://a9.com/-/spec/opensearch/1.1/', 'xal': 'urn:oasis:names:tc:ciq:xsdschema:xAL:2.0',
      'xml': 'http://www.w3.org/XML/1998/namespace', 'xsd': 'http://www.w3.org/2001/XMLSchema', 'xsi': 'http://www.w3.org/2001/XMLSchema-instance'}
KEYS = ['id', 'a', 'x:a', 'x:b', 'xmlns', 'xmlns:x', 'xmlns:gx', 'xmlns:a', 'x', 'xx:c', 'x:a:b', '\u00e9']


def sets(w, rng):
    """A history of calls on three sets of attributes."""
    w.count('sets')
    m = {'p': {}, 'q': {}, 'r': {}}
    ops, exp = [['atreset']], [None]

    def op(o, e):
        ops.append(o)
        exp.append(e)
        w.count('setcalls')

    for _ in range(rng.choice([4, 10, 25])):
        k = rng.choice('pqr')
        n = rng.choice(KEYS)
        r = rng.random()
        if r < 0.06:
            kv = [(rng.choice(KEYS), rng.choice(['', 'u:1', 'u:2', '5'])) for _ in range(rng.randrange(5))]
            if rng.random() < 0.15:
                kv += [('%s%d' % (rng.choice(['k', 'x:k', 'xmlns:k']), j), str(j)) for j in range(rng.choice([12, 40, 150]))]
                rng.shuffle(kv)
            op(['atmake', k, rng.choice(['vec', 'c'])] + [x for p in kv for x in p] + rng.choice([[], ['odd']]), [])
            m[k] = dict(kv)
        elif r < 0.4:
            t = rng.choice('sSidb')
            v = {'s': lambda: gen.g_string(rng), 'S': lambda: rng.choice(['', 'u:1', 'u:2', 'true', '7', ' 8 ', 'x']), 'i': lambda: str(rng.choice([0, -1, 2147483647, -2147483648, rng.randrange(10000)])),
                 'd': lambda: repr(gen.g_double(rng)), 'b': lambda: rng.choice('01')}[t]()
            op(['atset', k, t, n, v], [])
            m[k][n] = v if t != 'd' else None
            if t == 'd':
                m[k][n] = ('%.15g' % float(v))
        elif r < 0.6:
            t = rng.choice('sSnnidb')
            cut = rng.random() < 0.4
            v = m[k].get(n)
            if v is None:
                e = [{'s': 'untouched', 'S': 'untouched', 'n': '', 'i': '-77', 'd': '-77', 'b': '0'}[t], '0']
            elif t in 'sSn':
                e = ['' if t == 'n' else v, '1']
            else:
                e = typed(t, v)
            op(['atget', k, t, n, '01'[cut]], e)
            if cut:
                m[k].pop(n, None)
        elif r < 0.7:
            v = rng.choice(['u:1', 'u:2', '', 'no'] + list(m[k].values()))
            ks = [x for x in m[k] if m[k][x] == v]
            op(['atfind', k, v, n], (lambda g, ks=ks, n=n, v=m[k].get(n): g[0] == ('1' if ks else '0') and (g[1] in ks if ks else g[1] == 'untouched') and g[2:] == (['1', v] if v is not None else ['0', 'untouched'])))
        elif r < 0.78:
            j = rng.choice('pqr')
            if j != k:
                op(['atclone', k, j], [])
                m[j] = dict(m[k])
        elif r < 0.85:
            j = rng.choice('pqr')
            if j != k:
                op(['atmerge', k, j], [])
                m[k].update(m[j])
        elif r < 0.93:
            j = rng.choice('pqr')
            pre = rng.choice(['x', 'xmlns', 'xx', 'nope'])
            if j != k:
                cut = {x[len(pre) + 1:]: v for x, v in m[k].items() if x.startswith(pre + ':')}
                op(['atsplit', k, pre, j], ['ok' if cut else 'null'])
                m[k] = {x: v for x, v in m[k].items() if not x.startswith(pre + ':')}
                m[j] = cut
        else:
            pre = {x[6:]: v for x, v in m[k].items() if x.startswith('xmlns:')}
            d = m[k].get('xmlns', '')
            p, u = rng.choice(['x', 'gx', 'a', 'no']), rng.choice(['u:1', 'u:2', 'no'] + list(pre.values()))
            ks = [x for x in pre if pre[x] == u] or ['']
            if not pre and not d:
                op(['xmlnsof', k, p, u], ['null'])
            else:
                op(['xmlnsof', k, p, u], (lambda g, d=d, pre=pre, p=p, ks=ks: g[:3] == ['ok', d, pre.get(p, '')] and g[3] in ks and sorted(g[4:]) == sorted(pre)))
    for k in 'pqr':
        flat = [x for p in sorted(m[k].items(), key=lambda p: p[0].encode()) for x in p]
        op(['atall', k], [str(len(m[k])), str(len(m[k]))] + flat[::2] + flat)
        op(['atser', k, 'before'], None)
    op(['nstable'], None)
    o = w.do(ops)
    for q, g, e in zip(ops, o, exp):
        g = [x.decode('utf-8', 'surrogateescape') for x in g]
        if callable(e):
            w.check(e(g), 'set:' + q[0], lambda: '%r gives %r\nafter %r' % (q, g, ops))
        elif e is not None:
            w.eq(g, e, 'set:' + q[0], '%r after %r' % (q, ops))
        elif q[0] == 'atser':
            w.check(g[0].startswith('before'), 'set:append', 'serialization appends')
            w.eq(dict(attrs(g[0][6:])), m[q[1]], 'set:serialize', 'attributes as an XML reader sees them: %r' % g[0])
        elif q[0] == 'nstable':
            rows = [g[k:k + 4] for k in range(0, len(g), 4)]
            w.eq({r[1]: r[2] for r in rows if r[0] == '1'}, NS, 'namespaces', 'the namespaces known')
            w.eq({tuple(r) for r in rows if r[0] != '1'}, {('0', 'untouched', 'untouched', '0')}, 'namespaces', 'identifiers of no namespace')
            w.check(all(r[3] == r[0] for r in rows), 'namespaces', 'asked for nothing')
    w.seen(ops)


def attrs(text):
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = False
    got = {}
    p.StartElementHandler = lambda n, a: got.update(a)
    p.Parse('<e%s/>' % text, True)
    return got


def typed(t, v):
    """Value of the text read as another type; None where the library does not define it."""
    s = v.lstrip(' \t\n\r\v\f')
    if t == 'b':
        return [('1' if s in ('1', 'true') else '0'), '1'] if s in ('0', '1', 'true', 'false') else None
    if t == 'i':
        return [s, '1'] if re.fullmatch(r'0|-?[1-9][0-9]{0,8}', s) or s in ('2147483647', '-2147483648') else None
    return [gen.g17(float(s)), '1'] if re.fullmatch(r'-?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?', s) else None
