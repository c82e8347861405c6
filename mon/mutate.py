"""Mutations of XML text at byte, token and tree level."""
import re
from . import schema as S
TAGS = sorted({c.xml for c in S.CLASSES.values()} | {f.name for c in S.CLASSES.values() for f in c.fields if not f.attr and not f.group})
ATTRS = [b'id', b'targetId', b'name', b'parent', b'schemaUrl', b'type', b'href', b'xmlns', b'xmlns:gx', b'xmlns:a', b'maxLines', b'x', b'xunits', b'hint', b'kml', b'src', b'a:b']
VALUES = [b'', b'#', b'#a', b'a', b'Placemark', b'1', b'-1', b'1e999', b'nan', b'inf', b'99999999999999999999', b'#ffffff', b'ffffffffff', b'zz', b'0x10', b'true',
          b'1,2,3', b',', b',,,', b'1,', b'1 2 3 4', b'.', b'-', b'-.', b'1e', b'\n', b' ', b'<![CDATA[]]>', b'<![CDATA[<![CDATA[]]>', b'&lt;', b'&#0;', b'&#x10FFFF;', b'&x;', b'%', b'%zz',
          b'http://h/a.kmz/b.kml#c', b'../..', b'/', b'file:///etc/x', b'a.kmz/', b'2001-02-03T04:05:06Z', b'2001', b'x' * 5000, b'9' * 2000, b'a#b#c', b'$[a]', b'$[', b'$[]', b'$[a/displayName]']
NUM = re.compile(rb'-?\d+(?:\.\d+)?')
TAG = re.compile(rb'<(/?)([A-Za-z_:][\w:.-]*)([^<>]*)>')
ELEM = re.compile(rb'<([A-Za-z_:][\w:.-]*)(?:\s[^<>]*)?>[^<>]*</\1>')


def _elements(t):
    """Spans of elements, from a tolerant scan."""
    st, out = [], []
    for m in TAG.finditer(t):
        if m.group(1):
            for k in range(len(st) - 1, -1, -1):
                if st[k][0] == m.group(2):
                    out.append((st[k][1], m.end()))
                    del st[k:]
                    break
        elif m.group(3).endswith(b'/'):
            out.append((m.start(), m.end()))
        else:
            st.append((m.group(2), m.start()))
    return out


def mutate(rng, t, corpus):
    k = rng.randrange(22)
    n = len(t)
    if n == 0:
        return rng.choice(corpus) if corpus else b'<kml/>'
    if k == 0:
        i = rng.randrange(n)
        return t[:i] + bytes([rng.randrange(256)]) + t[i + 1:]
    if k == 1:
        i = rng.randrange(n)
        return t[:i] + t[i + rng.choice([1, 2, 5, 20]):]
    if k == 2:
        return t[:rng.randrange(n + 1)]
    if k == 3:
        i = rng.randrange(n + 1)
        return t[:i] + rng.choice([b'<', b'>', b'&', b'"', b'\0', b'\xff', b']]>', b'<!--', b'-->', b'<![CDATA[', b'<?x?>', b'</', b'/>', b'\r', b'&amp;', b'<a>', b'</kml>']) + t[i:]
    if k in (4, 5, 6):
        es = _elements(t)
        if es:
            a, b = rng.choice(es)
            e = t[a:b]
            if k == 4:
                return t[:a] + t[b:]
            if k == 5:
                return t[:b] + e * rng.choice([1, 1, 2, 5]) + t[b:]
            c, d = rng.choice(es)
            at = rng.choice([c, d])
            return t[:at] + e + t[at:]
        return t
    if k in (7, 8, 9):
        ms = list(TAG.finditer(t))
        if not ms:
            return t
        m = rng.choice(ms)
        new = rng.choice(TAGS).encode()
        if k == 7:       # rename one element consistently
            nm = m.group(2)
            return re.sub(rb'(</?)' + re.escape(nm) + rb'(?=[\s/>])', lambda x: x.group(1) + new, t)
        if k == 8:       # insert a new element
            body = rng.choice(VALUES) if rng.random() < 0.7 else b'<%s>%s</%s>' % (new, rng.choice(VALUES), new)
            return t[:m.end()] + b'<%s>%s</%s>' % (new, body, new) + t[m.end():] if not m.group(3).endswith(b'/') else t
        if m.group(1) or m.group(3).endswith(b'/'):
            return t
        return t[:m.end() - 1] + b' %s="%s"' % (rng.choice(ATTRS), rng.choice(VALUES).replace(b'<', b'').replace(b'&', b'')) + t[m.end() - 1:]
    if k in (10, 11):
        ms = list(NUM.finditer(t))
        if ms:
            m = rng.choice(ms)
            return t[:m.start()] + rng.choice(VALUES) + t[m.end():]
        return t
    if k in (12, 13):
        ms = list(ELEM.finditer(t))
        if ms:
            m = rng.choice(ms)
            e = m.group(0)
            a, b = e.index(b'>') + 1, e.rindex(b'</')
            return t[:m.start() + a] + rng.choice(VALUES) + t[m.start() + b:]
        return t
    if k == 14:          # deep nesting
        es = _elements(t)
        if not es:
            return t
        a, b = rng.choice(es)
        tag = rng.choice([b'Folder', b'MultiGeometry', b'Document', b'description', b'foo', b'Placemark', b'Change', b'StyleMap', b'Pair', b'Style'])
        d = rng.choice([2, 10, 50, 97, 98, 99, 100, 101, 150, 2000])
        return t[:a] + (b'<%s>' % tag) * d + t[a:b] + (b'</%s>' % tag) * d + t[b:]
    if k == 15:          # same ids
        return re.sub(rb'\bid="[^"]*"', b'id="a"', t)
    if k == 16:          # style references
        u = b'<styleUrl>%s</styleUrl>' % rng.choice([b'#a', b'#b', b'a', b'#', b'', b'x.kml#a', b'#a b', b'##a'])
        es = _elements(t)
        if es:
            at = rng.choice(rng.choice(es))
            return t[:at] + u + t[at:]
        return t
    if k == 17:
        return rng.choice([b'<?xml version="1.0" encoding="ISO-8859-1"?>', b'<?xml version="1.0" encoding="UTF-16"?>', b'\xef\xbb\xbf', b'<!DOCTYPE kml>', b'<?xml version="1.1"?>',
                           b'<!DOCTYPE kml [<!ENTITY a "b">]>', b'<!DOCTYPE kml [<!ENTITY a "aaaa"><!ENTITY b "&a;&a;&a;">]>', b'\n', b'<!-- c -->', b'<?pi?>', b' ']) + t
    if k == 18 and corpus:
        o = rng.choice(corpus)
        es, fs = _elements(t), _elements(o)
        if es and fs:
            a, b = rng.choice(es)
            c, d = rng.choice(fs)
            return t[:a] + o[c:d] + t[b:]
        return t
    if k == 19:          # a Schema, old or new style, and its uses
        nm = rng.choice([b'S', b'Placemark', b'Folder', b'Schema', b'name', b'Document', b''])
        s = b'<Schema %s><SimpleField %s></SimpleField></Schema>' % (
            rng.choice([b'name="%s" parent="Placemark"' % nm, b'parent="Placemark"', b'name="%s"' % nm, b'name="%s" id="a"' % nm]),
            rng.choice([b'name="F" type="string"', b'type="string"', b'name="name"', b'']))
        u = b'<%s><F>x</F><name>n</name></%s>' % (nm or b'S', nm or b'S')
        m = re.search(rb'<(Document|kml|Folder)[^<>]*>', t)
        at = m.end() if m else rng.randrange(n)
        return t[:at] + s + u * rng.choice([0, 1, 2]) + t[at:]
    if k == 20:          # an Update
        op = rng.choice([b'Change', b'Create', b'Delete'])
        tg = rng.choice([b'Placemark', b'Folder', b'Document', b'IconStyle', b'Point', b'Style', b'Data'])
        u = b'<NetworkLinkControl><Update><targetHref>x</targetHref><%s><%s targetId="%s"><name>q</name><Placemark id="a"/></%s></%s></Update></NetworkLinkControl>' % (op, tg, rng.choice([b'a', b'b', b'c', b'']), tg, op)
        m = re.search(rb'<kml[^<>]*>', t)
        at = m.end() if m else 0
        return t[:at] + u + t[at:]
    i, j = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
    return t[:i] + t[j:] if rng.random() < 0.5 else t[:j] + t[i:j][:3000] + t[j:]
