"""Balloon text: every entity reference is replaced by the value of the feature, once and everywhere, and nothing else changes."""
from . import edits, gen
ID = 'C30'
RULE = ('random features with data, schema data (with, without and with several schemas), styles and templates mixing known, unknown and damaged references; '
        'entity maps, alternative markup and balloon text compared with a model; distinct by template and map')
CASES = {'quick': 160000, 'thorough': 400000}
MIN = {'checks': 60000, 'refs': 40000, 'unknown': 10000, 'styled': 3000, 'default': 5000, 'tables': 3000, 'schemas': 4000, 'adjacent': 3000, 'edited': 3000}
LIT = ['', ' ', 'text', '<b>', '</b>', '$', '[', ']', '$$', '[[', ']]', '$]', '[name]', '$ [name]', '$(name)', '{name}', 'name', '&amp;', '\n', '\u6771', '%s', '$[]', '$[nope]', '$[NAME]', '$[name', '$[ name]', '$[name ]',
       '$[geDirections]']
VAL = ['', 'x', 'v1', 'name', 'long value ' * 5, 'a]b', 'a]', '<i>&</i>', '\u00e9\u6771', '10.5', 'n', '$', 'a$', '  ', 'id', '"q"']
FIELDS = ('name', 'address', 'snippet', 'description')


def esc(s):
    return gen.esc_text(s)


def refs(keys, t, m, stats):
    """Left to right; each reference is replaced by its value."""
    out, p = [], 0
    last = -1
    while p < len(t):
        if t.startswith('$[', p):
            e = t.find(']', p)
            k = t[p + 2:e] if e > 0 else None
            if k is not None and k in m:
                out.append(m[k])
                if last == p:
                    stats['adjacent'] = stats.get('adjacent', 0) + 1
                p = e + 1
                last = p
                stats['refs'] = stats.get('refs', 0) + 1
                continue
            stats['unknown'] = stats.get('unknown', 0) + 1
        out.append(t[p])
        p += 1
    return ''.join(out)


def ambiguous(t, m):
    """Replacement which makes up a new reference is left to the implementation."""
    out, p, starts = [], 0, []
    for v in m.values():
        if '$[' in v or v.startswith('['):
            return True
    r = refs(None, t, m, {})
    # some key reference in the result which was not there untouched
    return any('$[' + k + ']' in r for k in m)


def template(rng, keys):
    s = []
    for _ in range(gen.many(rng, [0, 1, 3, 6, 12], (60, 200), 0.01)):
        r = rng.random()
        if r < 0.55 and keys:
            s.append('$[%s]' % rng.choice(keys))
            if rng.random() < 0.3:
                s.append(s[-1])
        else:
            s.append(rng.choice(LIT))
    return ''.join(s)


def case(w, rng, i):
    if rng.random() < 0.3:
        strings(w, rng)
    else:
        feature(w, rng)


def tally(w, st):
    for k in st:
        w.count(k, st[k])


def strings(w, rng):
    start, end = rng.choice([('$[', ']'), ('$[', ']'), ('{', '}'), ('<<', '>>')])
    ks = rng.sample(['a', 'b', 'name', 'x/y', 'x/y/z', 'ab', 'a b', 'A', '\u00e9', 'k1', 'k2', 'k'], rng.choice([0, 1, 3, 6]))
    m = {}
    for k in ks:
        v = rng.choice(VAL + ['Q%sQ' % k, '%s%s' % (k, k)])
        m[k] = v
    t = template(rng, ks)
    st = {}
    if ambiguous(t, m):
        return
    exp = refs(None, t, m, st)
    tally(w, st)
    args = [x for k in ks for x in (k, m[k])]
    o = w.do([['expand', t] + args])
    w.eq(o[0][0].decode('utf-8'), exp, 'expand', 'expansion of %r with %r' % (t, m))
    # other delimiters; their own characters are taken out of the rest
    bad = set(start + end)
    if not any(c in v or c in k for c in bad for k, v in m.items()):
        segs, e2 = [], []
        for _ in range(gen.many(rng, [1, 4, 9], (60,), 0.01)):
            if ks and rng.random() < 0.6:
                k = rng.choice(ks)
                segs.append(start + k + end)
                e2.append(m[k])
            else:
                l = ''.join(c for c in rng.choice(LIT) if c not in bad)
                segs.append(l)
                e2.append(l)
        o = w.do([['expandstr', ''.join(segs), start, end] + args])
        w.eq(o[0][0].decode('utf-8'), ''.join(e2), 'expandstr', 'expansion of %r with %r between %r and %r' % (''.join(segs), m, start, end))
    w.seen((t, m))


def feature(w, rng):
    schemas, x = {}, ''
    for k in range(gen.many(rng, [0, 1, 1, 2], (20,), 0.01)):
        nm = rng.choice(['S%d' % k, 'Type %d' % k, None])
        fs = [('f%d' % j, rng.choice([None, 'd%d' % j, '<b>D%d</b>' % j, ''])) for j in range(gen.many(rng, [0, 1, 3], (20, 80), 0.01))]
        schemas['s%d' % k] = (nm or '', fs)
        x += '<Schema id="s%d"%s>%s</Schema>' % (k, ' name="%s"' % nm if nm else '', ''.join('<SimpleField type="string" name="%s">%s</SimpleField>' % (
            f, '<displayName>%s</displayName>' % esc(d) if d is not None else '') for f, d in fs))
    m, alt = {}, []
    cls = rng.choice(['Placemark', 'Placemark', 'Folder', 'NetworkLink', 'GroundOverlay', 'ScreenOverlay', 'PhotoOverlay', 'Document'])
    at = ''
    m['id'] = 'the'
    if rng.random() < 0.2:
        m['targetId'] = 't' + str(rng.randrange(9))
        at = ' targetId="%s"' % m['targetId']
    f = {}
    for nm in ('name', 'address', 'Snippet'):
        if rng.random() < 0.5:
            f[nm] = rng.choice(VAL).strip()
            m[nm] = f[nm]
    keys = ['id', 'targetId', 'name', 'address', 'Snippet', 'description']
    data, sdata = '', ''
    names = ['d%d' % j for j in range(6)] + ['D0', 'd00', 'd', '', 'a b', '\u00e9']
    ext = rng.random() < 0.7
    if ext:
        for _ in range(gen.many(rng, [0, 1, 3], (60,), 0.01)):
            nm = rng.choice(names)
            has = rng.random() < 0.95
            dn = rng.choice([None, None, None, 'disp ' + nm, '<u>x</u>', ''])
            v = rng.choice(VAL)
            hv = rng.random() < 0.9
            data += '<Data%s>%s%s</Data>' % (' name="%s"' % nm if has else '', '<displayName>%s</displayName>' % esc(dn) if dn is not None else '', '<value>%s</value>' % esc(v) if hv else '')
            if has:
                m[nm] = v if hv else ''
                keys.append(nm)
                if dn is not None:
                    m[nm + '/displayName'] = dn
                    keys.append(nm + '/displayName')
                alt.append((dn if dn is not None else nm, v if hv else ''))
        for _ in range(gen.many(rng, [0, 0, 1, 2, 3], (20, 60), 0.01)):
            url = rng.choice([None, 'nope'] + ['s0', 's1'] * 2)
            sc = schemas.get(url)
            pre = '/'
            disp = {}
            if sc:
                w.count('schemas')
                pre = sc[0] + '/'
                for fn, d in sc[1]:
                    if d is not None:
                        m[sc[0] + '/' + fn + '/displayName'] = d
                        keys.append(sc[0] + '/' + fn + '/displayName')
                    disp[fn] = sc[0] + ':' + (d if d is not None else fn)
            inner = ''
            for _ in range(gen.many(rng, [0, 1, 3], (60,), 0.01)):
                fn = 'f%d' % rng.randrange(4)
                v = rng.choice(VAL).strip()
                inner += '<SimpleData name="%s">%s</SimpleData>' % (fn, esc(v))
                m[pre + fn] = v
                keys.append(pre + fn)
                alt.append((disp.get(fn, fn), v))
            sdata += '<SchemaData%s>%s</SchemaData>' % (' schemaUrl="%s#%s"' % (rng.choice(['', '', 'other.kml', 'http://x/y.kml']), url) if url else '', inner)
    if rng.random() < 0.5:
        f['description'] = template(rng, keys)
        m['description'] = f['description']
    t = None
    style = shared = ''
    r = rng.random()
    if r < 0.5:
        t = template(rng, keys)
        b = '<BalloonStyle><text>%s</text></BalloonStyle>' % esc(t)
        if r < 0.25 and cls != 'Document':
            style = '<Style>%s</Style>' % b
        else:
            shared = '<Style id="bs">%s</Style>' % b
            style = '<styleUrl>#bs</styleUrl>'
    elif r < 0.7:
        style = rng.choice(['<Style><BalloonStyle><bgColor>ff00ff00</bgColor></BalloonStyle></Style>', '<styleUrl>#none</styleUrl>', '<Style><IconStyle/></Style>'])
    body = '<%s id="the"%s>%s%s%s%s%s%s</%s>' % (
        cls, at, '<name>%s</name>' % esc(f['name']) if 'name' in f else '', '<address>%s</address>' % esc(f['address']) if 'address' in f else '',
        '<Snippet%s>%s</Snippet>' % (rng.choice(['', '', ' maxLines="0"', ' maxLines="5"', ' maxLines="-1"']), esc(f['Snippet'])) if 'Snippet' in f else '', '<description>%s</description>' % esc(f['description']) if 'description' in f else '',
        style, '<ExtendedData>%s%s</ExtendedData>' % (data, sdata) if ext else '', cls)
    if rng.random() < 0.3:
        body = '<Folder><name>outer</name>%s</Folder>' % body
    doc = '<kml><Document>%s%s<Placemark><name>other</name></Placemark>%s</Document></kml>' % (shared, x, body)
    o = w.do([['kfparse', 'k', doc], ['kfobj', 'k', 'the', 'f'], ['entities', 'k', 'f'], ['balloon', 'k', 'f'], ['dump', 'f'], ['balloon', 'k', 'f']])
    w.check(o[0][0] == b'ok' and o[1][0] == b'ok', 'parse', doc)
    e = [v.decode('utf-8') for v in o[2]]
    n = 2 * len(m)
    w.check(n < len(e) and e[n] == '--', 'mapsize', lambda: 'entities of %s: %r, not %r' % (doc, e, m))
    w.eq(dict(zip(e[0:n:2], e[1:n:2])), m, 'map', 'entities of %s' % doc)
    g = e[n + 1:]
    w.eq(list(zip(g[::2], g[1::2])), alt, 'alt', 'data of %s' % doc)
    got = o[3][0].decode('utf-8')
    w.eq(o[5][0], o[3][0], 'again', 'balloon made again')
    st = {}
    if t is not None:
        if ambiguous(t, m):
            return
        w.count('styled')
        w.eq(got, refs(None, t, m, st), 'balloon', 'balloon of %s' % doc)
    else:
        d = f.get('description', '')
        if ambiguous(d, m) or '$[description]' in d:
            return
        w.count('default')
        exp = '<h3>%s</h3><br/><br/>' % f['name'] if 'name' in f else ''
        exp += refs(None, d, m, st)
        if ext:
            w.count('tables')
            exp += '\n<table border="1">\n' + ''.join('<tr><td>%s</td><td>%s</tr>\n' % a for a in alt) + '</table>\n'
        w.eq(got, exp, 'default', 'default balloon of %s' % doc)
    tally(w, st)
    if rng.random() < 0.15:         # the balloon follows edits: as of the same content read afresh
        w.do([['kfroot', 'k', 'r']])
        did = edits.edit(w, rng, 'r', 4, keep=('id', 'targetid', 'name' if 'Schema' in x else 'id'))
        o = w.do([['balloon', 'k', 'f'], ['entities', 'k', 'f'], ['ser', 'r', 'raw']])
        q = w.do([['kfparse', 'k', o[2][0]], ['kfobj', 'k', 'the', 'f'], ['balloon', 'k', 'f'], ['entities', 'k', 'f']])
        w.eq(o[:2], q[2:], 'edited', 'balloon and entities after %r of %s' % (did, doc))
        w.count('edited', 1 if did else 0)
    w.seen(doc)
    w.sample({'doc': doc[:400], 'balloon': got[:200]})
