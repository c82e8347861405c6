"""Elements and attributes libkml does not know, or finds in the wrong place, survive parse and serialization."""
from . import gen, reader, schema as S
from .c03 import alt0, strip_text
from .c04 import m2
ID = 'C05'
RULE = ('every pair (parent class, known element the parent does not define), then random documents with foreign subtrees, misplaced KML '
        'elements and foreign attributes at random elements; distinct by the set of injected items')
TEXTY = ('Coordinates', 'Snippet', 'LinkSnippet', 'SimpleData')
PARENTS = sorted(set(S.CLASSES) - {'IconStyleIcon'} - set(TEXTY))
CASES = {'quick': len(PARENTS) + 45000, 'thorough': len(PARENTS) + 120000}
MIN = {'checks': 10000, 'pairs': 10000, 'foreign': 3000, 'misplaced': 1000, 'fattrs': 1000, 'namespaces': 1000, 'described': 1000}
TAGS = {}
for _c in S.CLASSES.values():
    TAGS[_c.xml] = _c
    for _f in _c.fields:
        if not _f.attr and _f.kind not in 'CATP' and not _f.group:
            TAGS.setdefault(_f.name, _f)
FOREIGN = ['foo', 'Unknown', 'xx', 'my:elem', 'Placemarkk', 'kml2', 'gx:NewThing', 'atom:rights', 'Name', 'COORDINATES', 'a.b', '_u-1', 'é', 'desc']
assert not set(FOREIGN) & reader.KNOWN
TEXTS = ['text', ' padded ', 'a & b', '<b>', ']]>', '"q"', "'", '&amp;', '\n\t', 'x\ry', 'Ünï', '', '<![CDATA[', '\U0001F30D', '1,2,3 4,5,6']


def accepts(c, tag):
    for f in c.fields:
        if f.attr:
            continue
        if f.kind in 'CA' and tag in [S.CLASSES[m].xml for m in S.members(f.arg)]:
            return True
        if not f.group and f.name == tag:
            return True
    return False


def taken(c, tag):
    """Accepted in place of a related element (a time, an object or a link)."""
    if accepts(c, tag):
        return True
    if tag in ('TimeStamp', 'TimeSpan', 'gx:TimeStamp', 'gx:TimeSpan'):
        return c.name in ('Camera', 'LookAt') or 'timeprimitive' in c.by or c.name in ('Change', 'Delete')
    if tag in ('Icon', 'Url'):
        return c.name in ('Change', 'Delete', 'NetworkLink')
    return False


def foreign(rng, depth=0, top=True):
    tag = rng.choice(FOREIGN) if top or rng.random() < 0.5 else rng.choice(
        ['Placemark', 'description', 'name', 'Schema', 'Icon', 'coordinates', 'kml', 'Style', 'p', 'br', 'Snippet', 'SimpleData', 'IconStyle'])
    at = ''
    for a in rng.sample(['a', 'id', 'href', 'x:y', 'b2', 'name', 'parent'], rng.choice([0, 0, 1, 2, 3])):
        at += ' %s="%s"' % (a, gen.esc_attr(rng.choice(TEXTS)))
    if rng.random() < 0.03:
        at += ''.join(' k%d="%d"' % (k, k) for k in range(rng.choice([9, 17, 40, 130])))
    if rng.random() < 0.15:
        return '<%s%s/>' % (tag, at)
    body = ''
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < 0.5 and depth < 5:
            body += foreign(rng, depth + 1, False)
        else:
            t = rng.choice(TEXTS)
            body += '<![CDATA[%s]]>' % t if rng.random() < 0.3 and ']]>' not in t and '\r' not in t else gen.esc_text(t)
    return '<%s%s>%s</%s>' % (tag, at, body, tag)


def tidy(n):
    return strip_text(alt0(gen.parsed(n)))


def pairs(w, rng, P):
    c = S.CLASSES[P]
    ops, jobs = [], []
    for t, x in sorted(TAGS.items()):
        if accepts(c, t):
            continue
        if isinstance(x, S.Cls):
            cx = gen.Writer(rng, cdata=0).xml(tidy(gen.G(rng, 2, 0.4).node(x.name)))
        else:
            cx = '<%s>%s</%s>' % (t, gen.esc_text(rng.choice(TEXTS)), t)
        xml = '<%s>%s</%s>' % (c.xml, cx, c.xml)
        jobs.append((t, xml))
        ops += [['parse', 'r', xml], ['ser', 'r', 'raw'], ['ser', 'r', 'pretty']]
    o = w.do(ops)
    for j, (t, xml) in enumerate(jobs):
        exp = gen.dump(reader.read(xml, P, tstrip=True, extras=True))
        w.check(o[3 * j][0] == b'ok', 'rejected', 'rejected: ' + xml)
        for k in (1, 2):
            try:
                got = gen.dump(reader.read(o[3 * j + k][0], P, tstrip=True, extras=True))
            except (reader.Malformed, reader.NotKml, ValueError) as e:
                w.fail('pair', '%s: %s\nin:  %s\nout: %r' % (t, e, xml, o[3 * j + k][0]))
            w.eq(got, exp, 'pair', '%s misplaced in %s: %s' % (t, P, xml))
        w.count('pairs')
        w.seen((P, t))


def markup(rng, depth=0):
    """Markup as it is written in a description, and the text it stands for."""
    a, b = '', ''
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < 0.5 and depth < 6:
            t = rng.choice(['b', 'p', 'br', 'description', 'description', 'name', 'Placemark', 'Schema', 'a:b', 'Snippet', 'coordinates', 'Document', 'Icon'])
            x, y = markup(rng, depth + 1)
            at, bt = '', ''
            for k in rng.sample(['id', 'href', 'name', 'parent', 'x:y'], rng.choice([0, 0, 1, 2])):
                v = rng.choice(TEXTS)
                at += ' %s="%s"' % (k, gen.esc_attr(v))
                bt += ' %s="%s"' % (k, v)
            a += '<%s%s>%s</%s>' % (t, at, x, t) if x or rng.random() < 0.5 else '<%s%s/>' % (t, at)
            b += '<%s%s>%s</%s>' % (t, bt, y, t)
        else:
            t = rng.choice(TEXTS)
            a += '<![CDATA[%s]]>' % t if rng.random() < 0.3 and ']]>' not in t and '\r' not in t else gen.esc_text(t)
            b += t
    return a, b


def described(w, rng):
    """Markup within a description is its text; what comes after it is read as ever."""
    m, t = markup(rng)
    cls = rng.choice(['Placemark', 'Folder', 'NetworkLink', 'Document', 'GroundOverlay'])
    pre = rng.choice(['', '<name>n</name>', '<foo>x</foo>'])
    post = rng.choice(['', '<visibility>0</visibility>', '<bar><description>no <b>x</b></description></bar><styleUrl>#s</styleUrl>', '<Snippet>s</Snippet>'])
    f = '<%s>%s<description>%s</description>%s</%s>'
    ops = [['parse', 'a', f % (cls, pre, m, post, cls)], ['get', 'a', 'description'], ['dump', 'a'], ['parse', 'b', f % (cls, pre, gen.esc_text(t), post, cls)], ['dump', 'b'], ['ser', 'a', 'raw']]
    o = w.do(ops)
    w.eq((o[0][0], o[3][0]), (b'ok', b'ok'), 'description', 'parsing of %s' % ops[0][2])
    w.eq(o[1][0], t.encode('utf-8', 'surrogateescape'), 'description', 'description of %s' % ops[0][2])
    w.eq(o[2][0], o[4][0], 'description', 'what is read with the markup of %s' % ops[0][2])
    o = w.do([['parse', 'c', o[5][0]], ['dump', 'c'], ['dump', 'a']])
    w.eq(o[1][0], o[2][0], 'description', 'read again')
    w.count('described')
    w.seen(m)


def case(w, rng, i):
    if i < len(PARENTS):
        return pairs(w, rng, PARENTS[i])
    if rng.random() < 0.1:
        return described(w, rng)
    cls = rng.choice(PARENTS) if rng.random() < 0.5 else rng.choice(['Kml', 'Document', 'Folder', 'Placemark'])
    n = tidy(gen.G(rng, rng.choice([2, 5, 15, 40]), rng.choice([0.1, 0.3, 0.6])).node(cls))
    prob = rng.choice([0.1, 0.3, 0.7])
    inj = []

    def extra(x):
        if x.cls in TEXTY or rng.random() > prob:
            return []
        c = S.CLASSES[x.cls]
        groups = []
        us, ms = [], []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 3, 3, 12])):
            if rng.random() < 0.6:
                us.append(foreign(rng))
                w.count('foreign')
            else:
                t = rng.choice(sorted(TAGS))
                if taken(c, t):
                    continue
                y = TAGS[t]
                if isinstance(y, S.Cls):
                    ms.append(gen.Writer(rng, cdata=0).xml(tidy(gen.G(rng, 3, 0.3).node(y.name))))
                else:
                    ms.append('<%s>%s</%s>' % (t, gen.esc_text(rng.choice(TEXTS)), t))
                w.count('misplaced')
        x.unknown = [reader.extra_key(reader.tree(m)) for m in ms] + [reader.extra_key(reader.tree(u)) for u in us]
        inj.extend(x.unknown)
        return [ms, us]
    for x in n.walk():
        if x.cls not in TEXTY and rng.random() < prob * 0.5:
            for a in rng.sample(['foo', 'bar', 'x:y', 'data-a', 'Id', 'style', 'xml:lang', 'xmlnsx'], rng.choice([1, 2])):
                x.uattrs[a] = rng.choice(TEXTS)
                w.count('fattrs')
                inj.append((a, x.uattrs[a]))
            if rng.random() < 0.01:
                for k in range(rng.choice([40, 140, 300])):
                    x.uattrs['m%d' % k] = rng.choice(TEXTS)
                    inj.append(k)
        if x.cls not in TEXTY and rng.random() < prob * 0.2:
            for a in rng.sample(['xmlns', 'q', 'gx', 'a.b', 'kml', 'xmlnsq'], rng.choice([1, 1, 2, 3])):
                x.xm[a] = rng.choice(TEXTS + ['', 'http://earth.google.com/kml/2.1', 'urn:q'])
                w.count('namespaces')
                inj.append((a, x.xm[a]))
    xml = gen.Writer(rng, xmlns=True, noise=rng.choice([0, 0.2]), shuffle=rng.random() < 0.7, extra=extra).xml(n)
    exp = gen.dump(n)
    o = w.do([['parse', 'r', xml], ['ser', 'r', 'raw'], ['ser', 'r', 'pretty'], ['clone', 'r', 'k'], ['ser', 'k', 'raw']])
    w.check(o[0][0] == b'ok', 'rejected', lambda: 'rejected: %r %s' % (o[0], xml[:3000]))

    def look(nm, data):
        try:
            got = gen.dump(reader.read(data, cls, tstrip=True, extras=True))
        except (reader.Malformed, reader.NotKml, ValueError) as e:
            w.fail('output:' + nm, '%s: %s\nin:  %s\nout: %r' % (nm, e, xml[:2500], data[:2500]))
        w.eq(got, exp, 'lost:' + nm, 'what an independent reader finds in the %s output of %s' % (nm, xml[:1500]))
    look('raw', o[1][0])
    look('pretty', o[2][0])
    look('clone', o[4][0])
    o2 = w.do([['parse', 'a', o[1][0]], ['ser', 'a', 'raw'], ['parse', 'b', o[2][0]], ['ser', 'b', 'raw']])
    look('second', o2[1][0])
    look('pretty-second', o2[3][0])
    if inj:
        w.seen(repr(inj))
        w.sample({'class': cls, 'injected': len(inj), 'xml': xml[:300]})
