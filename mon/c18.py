"""Exactly the well-formed, not too deep texts with a KML root and no entity declarations are accepted, in any encoding and prefixing."""
import io
import zipfile
import zlib
from . import gen, reader, schema as S, c01
import xml.parsers.expat as X
ID = 'C18'
RULE = ('generated and damaged texts with hostile nesting around the limit of 100, entity declarations, document types, encodings with and '
        'without byte-order marks, and foreign prefixes; acceptance by every entry point compared with an independent parser and the stated '
        'rules; distinct by text')
CASES = {'quick': 36000, 'thorough': 500000}
MIN = {'checks': 100000, 'archives': 3000, 'accepted': 8000, 'malformed': 4000, 'deep': 2000, 'atlimit': 500, 'entities': 1500, 'root': 1500, 'encodings': 1500, 'prefixed': 1500}
DOCS = ['<kml><Document><name>x</name><Placemark id="a"><Point><coordinates>1,2,3</coordinates></Point></Placemark></Document></kml>']


def doc(rng):
    cls = rng.choice(['Kml', 'Document', 'Folder', 'Placemark', 'Style', 'NetworkLink'])
    n = gen.G(rng, rng.choice([2, 10, 40]), rng.choice([0.2, 0.6])).node(cls)
    return gen.Writer(rng, noise=rng.choice([0, 0.2]), shuffle=True).xml(n)


def facts(t, enc=None):
    """(well-formed, depth, entity declared, root) by an independent parser"""
    p = X.ParserCreate(enc)
    st = {'d': 0, 'max': 0, 'ent': False, 'root': None}

    def start(tag, attrs):
        st['root'] = st['root'] or tag
        st['d'] += 1
        st['max'] = max(st['max'], st['d'])

    def end(tag):
        st['d'] -= 1

    def ent(*a):
        st['ent'] = True
    p.StartElementHandler, p.EndElementHandler, p.EntityDeclHandler = start, end, ent
    try:
        p.Parse(t, True)
        ok = True
    except (X.ExpatError, LookupError):
        ok = False
    return ok, st['max'], st['ent'], st['root']


def judge(w, t):
    ok, depth, ent, root = facts(t)
    want = ok and depth <= 100 and not ent and root in reader.KNOWN
    if not ok:
        w.count('malformed')
    if depth > 100:
        w.count('deep')
    if depth in (100, 101):
        w.count('atlimit')
    if ent:
        w.count('entities')
    if ok and root not in reader.KNOWN:
        w.count('root')
    o = w.do([['parse', 'a', t, 'plain'], ['parse', 'b', t, 'kml'], ['stream', 'c', t, 'good', '-1'], ['chunks', 'd', t, '13'], ['kfparse', 'k', t], ['elcount', t], ['getlinks', t]])
    for q, nm in zip(o[:5], ('Parse', 'ParseKml', 'KmlStream', 'ParseBuffer', 'KmlFile')):
        w.eq(q[0], b'ok' if want else b'null', 'accept', '%s (well-formed %s, depth %d, entity %s, root %s)' % (nm, ok, depth, ent, root))
    b = t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape')
    if b and len(b) < 500000 and zlib.crc32(b) % 4 == 0:       # and within an archive
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED) as z:
            z.writestr('doc.kml', b)
        q = w.do([['kfparse', 'z', buf.getvalue()]])[0]
        w.eq((q[0], q[1] != b''), (b'ok', False) if want else (b'null', True), 'archive', 'the text within a KMZ: accepted, with an error message')
        w.count('archives')
    if not want:
        for q, nm in zip(o[:5], ('Parse', 'ParseKml', 'KmlStream', 'ParseBuffer', 'KmlFile')):
            w.check(len(q) < 2 or nm == 'ParseKml' or q[1] != b'', 'message', 'a text refused by %s has an error message' % nm)
        w.check(o[0][1] != b'', 'message', 'a refused text has an error message')
    else:
        w.count('accepted')
    return want


def nest(rng):
    d = rng.choice([1, 50, 98, 99, 100, 100, 101, 101, 102, 150, 1000, 5000])
    r = rng.random()
    if r < 0.3:
        a, inner = ['Folder'] * d, ''
    elif r < 0.5:
        a = ['Placemark'] + ['foo'] * (d - 1)
        inner = 'text'
    elif r < 0.6:
        a = (['Placemark', 'description'] + ['b'] * d)[:d]
        inner = 'x'
    elif r < 0.75:
        a = (['kml', 'Document'] + ['MultiGeometry'] * d)[:d]
        inner = ''
    elif r < 0.85:
        a = ['zzz'] + ['b'] * (d - 1)
        inner = ''
    else:
        k = rng.randrange(d)
        a = (['Folder'] * k + ['foo'] + ['Folder'] * d)[:d]
        inner = ''
    sib = '<Placemark/>' * rng.choice([0, 1, 200]) if a[0] == 'Folder' and d > 1 else ''
    t = ''.join('<%s>' % x for x in a[:1]) + sib + ''.join('<%s>' % x for x in a[1:]) + inner + ''.join('</%s>' % x for x in reversed(a))
    return t.encode()


def entities(rng):
    root = rng.choice(['kml', 'Placemark', 'Document'])
    r = rng.random()
    body = rng.choice(['&a;', 'x', '&amp;', '&#65;&#x42;', '&lt;&gt;&quot;&apos;'])
    if r < 0.15:
        dtd = '<!DOCTYPE %s>' % root
    elif r < 0.25:
        dtd = '<!DOCTYPE %s SYSTEM "file:///etc/passwd">' % root
    elif r < 0.45:
        dtd = '<!DOCTYPE %s [<!ENTITY a "b">]>' % root
    elif r < 0.6:
        dtd = '<!DOCTYPE %s [%s]>' % (root, rng.choice([
            '<!ENTITY a SYSTEM "file:///etc/passwd">', '<!ENTITY a PUBLIC "p" "file:///etc/passwd">', '<!ENTITY % p SYSTEM "file:///etc/passwd">',
            '<!NOTATION n SYSTEM "n"><!ENTITY a SYSTEM "x" NDATA n>', '<!ENTITY % p "">', '<!ENTITY amp "&#38;#38;">', '<!ENTITY a "">',
            '<!ELEMENT q ANY><!ENTITY a "b">', '<!NOTATION n PUBLIC "n">']))
    elif r < 0.7:
        dtd = '<!DOCTYPE %s [<!ENTITY %% p "<!ENTITY a \'b\'>">%%p;]>' % root
    elif r < 0.8:
        dtd = '<!DOCTYPE %s [<!ENTITY a "1234567890">%s]>' % (root, ''.join('<!ENTITY %s "%s">' % (chr(98 + k), ('&%s;' % chr(97 + k)) * 10) for k in range(9)))
        body = '&j;'
    elif r < 0.9:
        dtd = '<!DOCTYPE %s [<!ELEMENT %s ANY><!ATTLIST %s id CDATA "dflt">]>' % (root, root, root)
    else:
        dtd = ''
    return ('<?xml version="1.0"?>%s<%s><name>%s</name></%s>' % (dtd, root, body, root)).encode()


def case(w, rng, i):
    r = rng.random()
    if r < 0.2:
        t = nest(rng)
    elif r < 0.35:
        t = entities(rng)
    elif r < 0.5:
        t, k = c01.text(rng)
    elif r < 0.6:
        t = doc(rng).encode('utf-8', 'surrogateescape')
    elif r < 0.75:
        t = bytearray(doc(rng).encode('utf-8', 'surrogateescape'))
        for _ in range(rng.choice([1, 1, 2])):
            p = rng.randrange(len(t) + 1)
            q = rng.random()
            if q < 0.3:
                del t[p:p + 1]
            elif q < 0.5:
                t[p:p] = rng.choice([b'<', b'>', b'&', b'</x>', b'<x>', b'"', b'<!--', b']]>', b'<![CDATA[', b'<?', b'\0', b'\xff', b'\xc3', b'<x/>', b'&#0;', b'&#xD800;', b'\xef\xbf\xbf'])
            elif q < 0.7:
                del t[p:]
            elif q < 0.85:
                t += rng.choice([b' ', b'x', b'<kml/>', b'<!-- c -->', b'<?pi?>', b'\0', b'&amp;'])
            else:
                t[:0] = rng.choice([b' ', b'x', b'\n', b'<?xml version="1.0"?>', b'<?xml version="1.1"?>', b'<?xml version="1.0" encoding="x-none"?>', b'\xef\xbb\xbf', b'<!-- c -->'])
        t = bytes(t)
    elif r < 0.8:
        t = ('<%s>%s</%s>' % (('zzz', '<name>x</name>', 'zzz') if rng.random() < 0.5 else ('KML', '', 'KML'))).encode() if rng.random() < 0.7 else rng.choice([b'', b' ', b'<kml', b'kml', b'<html><kml/></html>', b'<kml:kml/>', b'<name>x</name>', b'<Change/>', b'\0'])
    elif r < 0.9:
        return encodings(w, rng)
    else:
        return prefixes(w, rng)
    judge(w, t)
    w.seen(t)
    w.sample({'bytes': len(t), 'head': t[:80].decode('latin1')})


def encodings(w, rng):
    w.count('encodings')
    body = doc(rng)
    body = ''.join(c for c in body if ord(c) < 0xd800 or 0xe000 <= ord(c) < 0xfffe or ord(c) > 0xffff)
    enc = rng.choice(['utf-8', 'UTF-16', 'utf-16-le', 'utf-16-be', 'ISO-8859-1', 'US-ASCII'])
    if enc in ('ISO-8859-1', 'US-ASCII'):
        top = 256 if enc[0] == 'I' else 128
        body = ''.join(c if ord(c) < top and not 0x7f <= ord(c) < 0xa0 else 'q' for c in body)
    head = '<?xml version="1.0" encoding="%s"?>' % ('UTF-16' if enc.startswith('utf-16') else enc)
    if enc == 'utf-8' and rng.random() < 0.5:
        head = ''
    t = (head + body).encode(enc)
    if enc.startswith('utf-16'):
        t = (b'\xff\xfe' if enc.endswith('le') else b'\xfe\xff') + t
    if enc == 'utf-8' and rng.random() < 0.3:
        t = b'\xef\xbb\xbf' + t
    try:
        ref = body.encode('utf-8')
    except UnicodeEncodeError:
        return
    if not facts(ref)[0]:
        return
    o = w.do([['parse', 'a', t, 'plain'], ['dump', 'a'], ['parse', 'b', ref, 'plain'], ['dump', 'b'], ['stream', 'c', t, 'good', '-1'], ['dump', 'c']])
    w.eq(o[0][0], o[2][0], 'encoding', 'acceptance of %s' % enc)
    w.eq(o[1][0], o[3][0], 'encodingtree', 'document in %s' % enc)
    w.eq(o[5][0], o[3][0], 'encodingstream', 'stream in %s' % enc)
    w.seen(t)


def prefixes(w, rng):
    """ParseNS for KML under any prefix, ParseAtom for Atom under any prefix"""
    w.count('prefixed')
    pre = rng.choice(['', 'kml:', 'k:', 'x-1:', 'gx:'])
    g = gen.G(rng, rng.choice([3, 15]), 0.5, strfn=lambda q: rng.choice(['a', 'b c', '1']))
    n = g.node(rng.choice(['Folder', 'Placemark', 'Style', 'LookAt', 'Document']))
    e = reader.tree(gen.Writer(rng).xml(n))

    def plain(e):
        return ':' not in e.tag and all(plain(k) for k in e.kids) and e.tag != 'description' and not any(':' in a for a in e.attrs)

    def prune(e):
        e.parts = [p for p in e.parts if isinstance(p, str) or ':' not in p.tag and p.tag != 'description']
        e.kids = [p for p in e.parts if not isinstance(p, str)]
        for k in e.kids:
            prune(k)

    def out(e, f, extra=''):
        t = f(e.tag)
        return '<%s%s%s>%s</%s>' % (t, extra, ''.join(' %s="%s"' % (k, gen.esc_attr(v)) for k, v in e.attrs.items() if k[:5] != 'xmlns'),
                                    ''.join(gen.esc_text(p) if isinstance(p, str) else out(p, f) for p in e.parts), t)
    prune(e)
    a = out(e, lambda t: t)
    ns = ' xmlns%s="%s"' % (':' + pre[:-1] if pre else '', rng.choice(['http://www.opengis.net/kml/2.2', 'http://earth.google.com/kml/2.1']))
    b = out(e, lambda t: pre + t, ns)
    o = w.do([['parse', 'a', a, 'plain'], ['dump', 'a'], ['parse', 'b', b, 'ns'], ['dump', 'b']])
    w.eq((o[2][0], o[3][0]), (o[0][0], o[1][0]), 'ns', 'namespace-aware parse of %r' % b[:300])
    # Atom
    n = gen.G(rng, rng.choice([3, 15]), 0.5, strfn=lambda q: rng.choice(['a', 'b c', '1'])).node(rng.choice(['AtomFeed', 'AtomEntry']))
    e = reader.tree(gen.Writer(rng).xml(n))
    a = out(e, lambda t: t)
    p = rng.choice(['', 'a:', 'atom:', 'zz:'])
    q = rng.choice(['k:', 'kml:']) if p == '' else rng.choice(['', 'k:'])
    f = lambda t: p + t[5:] if t.startswith('atom:') else q + t
    ns = ' xmlns%s="http://www.w3.org/2005/Atom" xmlns%s="http://www.opengis.net/kml/2.2"' % (':' + p[:-1] if p else '', ':' + q[:-1] if q else '')
    b = out(e, f, ns)
    o = w.do([['parse', 'a', a, 'plain'], ['dump', 'a'], ['parse', 'b', b, 'atom'], ['dump', 'b']])
    w.eq((o[2][0], o[3][0]), (o[0][0], o[1][0]), 'atom', 'Atom parse of %r' % b[:300])
    w.seen(b)


def setup(w):
    c01.corpus()
