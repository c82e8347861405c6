"""The XSD reader's answers describe the schema text it was given."""
import re
from . import gen
ID = 'C28'
RULE = ('random schemas: abstract and concrete elements of built-in, simple, complex, foreign and missing types, references, type derivations of any depth '
        '(cyclic ones included), anonymous nested types, annotations, missing namespaces, other root elements, and damaged text; every query on each; distinct by text')
CASES = {'quick': 30000, 'thorough': 600000}
MIN = {'checks': 150000, 'schemas': 12000, 'derived': 20000, 'cycles': 800, 'refs': 20000, 'anonymous': 2000, 'nonamespace': 400, 'damaged': 1000, 'aliases': 3000}
PRIM = ['string', 'boolean', 'decimal', 'float', 'double', 'duration', 'dateTime', 'time', 'date', 'gYearMonth', 'gYear', 'gMonthDay', 'gDay', 'gMonth',
        'hexBinary', 'base64Binary', 'anyURI', 'NOTATION', 'integer', 'long', 'int']
NAMES = ['Feature', 'name', 'AbstractFeatureGroup', 'kml', 'a', 'b', 'B', 'Point', 'string', 'element', 'schema', 'x.y', 'x-1', '_z', '\u00e9l', 'type', 'complexType']


def attr(rng, k, v):
    return ' %s=%s' % (k, rng.choice(['"%s"', "'%s'"]) % gen.esc_attr(v).replace("'", '&#39;'))


def attrs(rng, kv):
    kv = [k for k in kv if k[1] is not None]
    rng.shuffle(kv)
    return ''.join(attr(rng, k, v) for k, v in kv)


class Doc(object):
    pass


def make(w, rng):
    d = Doc()
    d.prefix = rng.choice(['kml', 'x', 'tns', 'a'])
    d.ns = rng.choice(['http://www.opengis.net/kml/2.2', 'urn:x', 'a:b:c'])
    d.hasns = rng.random() > 0.06
    d.elements, d.types = {}, {}
    names = rng.sample(NAMES, rng.randrange(1, len(NAMES))) + ['e%d' % k for k in range(gen.many(rng, [0, 3, 8], (60, 150), 0.02))]
    tn = ['%sType' % n for n in names[:rng.randrange(1, 12)]] + ['simple%d' % k for k in range(rng.choice([0, 1, 3]))]
    rng.shuffle(tn)
    kinds = {t: 'simple' if t.startswith('simple') or rng.random() < 0.15 else 'complex' for t in tn}
    def typeref():
        r = rng.random()
        if r < 0.35:
            return rng.choice(PRIM)
        if r < 0.8:
            return d.prefix + ':' + rng.choice(tn)
        if r < 0.85:
            return d.prefix + ':nothere'
        if r < 0.9:
            return 'foreign:' + rng.choice(tn)
        if r < 0.93:
            return rng.choice(tn)
        if r < 0.95:
            return rng.choice([d.prefix + ':', ':', d.prefix, 'xs:string', d.prefix + ':' + d.prefix + ':x'])
        return None
    parts = []
    for n in names:
        e = {'name': n, 'type': typeref(), 'abstract': rng.choice([None, None, None, 'true', 'true', 'false']),
             'default': gen.g_string(rng, 0.5, False) if rng.random() < 0.3 else None,
             'substitutionGroup': d.prefix + ':' + rng.choice(names) if rng.random() < 0.4 else None}
        for k in e:
            if e[k] is not None:
                e[k] = ''.join(c for c in e[k] if c >= ' ')
        d.elements[n] = e
        body = ''
        if e['type'] is None and rng.random() < 0.7:
            w.count('anonymous')
            body = anonymous(w, rng, d, names)
        x = '<element%s' % attrs(rng, list(e.items()))
        parts.append(x + ('>%s</element>' % body if body else rng.choice(['/>', '></element>'])))
    order = list(tn)
    rng.shuffle(order)
    for k, t in enumerate(order):
        if kinds[t] == 'simple':
            base = rng.choice(PRIM + [d.prefix + ':' + rng.choice(tn)]) if rng.random() < 0.9 else None
            en = [''.join(c for c in gen.g_string(rng, 0.4, False) if c >= ' ') for _ in range(gen.many(rng, [0, 0, 1, 3, 9], (40, 150), 0.01))] if base is not None else []
            d.types[t] = {'kind': 'simple', 'base': base or '', 'enum': en}
            body = '<restriction%s>%s</restriction>' % (attr(rng, 'base', base), ''.join('<enumeration%s/>' % attr(rng, 'value', v) for v in en)) if base is not None else ''
            parts.append('<simpleType%s>%s%s</simpleType>' % (attr(rng, 'name', t), annotation(rng), body))
            continue
        r = rng.random()
        prev = [o for o in order[:k] if kinds[o] == 'complex']
        base = None
        if r < 0.7 and prev:
            base = d.prefix + ':' + rng.choice(prev[-2:])
        elif r < 0.78:
            base = d.prefix + ':' + rng.choice(order)      # possibly itself, or a cycle
        elif r < 0.84:
            base = rng.choice(['foreign:T', 'string', d.prefix + ':nothere'])
        seq = []
        body = ''
        for _ in range(gen.many(rng, [0, 1, 2, 5], (40,), 0.01)):
            if rng.random() < 0.6:
                ref = rng.choice([d.prefix + ':' + rng.choice(names), d.prefix + ':' + rng.choice(names), 'foreign:' + rng.choice(names), d.prefix + ':nothere', rng.choice(names)])
                seq.append(('ref', ref, ''))
                body += '<element%s/>' % attrs(rng, [('ref', ref), ('minOccurs', '0'), ('maxOccurs', rng.choice([None, 'unbounded']))])
                w.count('refs')
            else:
                n = rng.choice(['local%d' % rng.randrange(9), rng.choice(names)])
                ty = None
                if rng.random() < 0.25:
                    w.count('anonymous')
                    body += '<element%s>%s</element>' % (attr(rng, 'name', n), anonymous(w, rng, d, names))
                else:
                    ty = typeref()
                    body += '<element%s/>' % attrs(rng, [('name', n), ('type', ty)])
                seq.append(('name', n, ty or ''))
        if body:
            wrap = rng.choice(['sequence', 'choice', 'all'])
            body = '<%s>%s</%s>' % (wrap, body, wrap)
        body += ''.join('<attribute name="at%d" type="string"/>' % j for j in range(rng.choice([0, 0, 2])))
        if base is not None:
            body = '<complexContent><extension%s>%s</extension></complexContent>' % (attr(rng, 'base', base), body)
        d.types[t] = {'kind': 'complex', 'base': base or '', 'seq': seq}
        parts.append('<complexType%s>%s%s</complexType>' % (attrs(rng, [('name', t), ('abstract', rng.choice([None, 'true']))]), annotation(rng), body))
    rng.shuffle(parts)
    if rng.random() < 0.3:
        parts.insert(rng.randrange(len(parts) + 1), '<import namespace="foreign" schemaLocation="f.xsd"/>')
    if rng.random() < 0.2:
        parts.insert(rng.randrange(len(parts) + 1), '<!-- <element name="comment"/> -->')
    if rng.random() < 0.1:
        parts.insert(rng.randrange(len(parts) + 1), '<element/>')
    if rng.random() < 0.1:
        parts.insert(rng.randrange(len(parts) + 1), '<group name="g"><sequence><element name="ingroup" type="string"/></sequence></group>')
    sa = [('xmlns', 'http://www.w3.org/2001/XMLSchema'), ('elementFormDefault', 'qualified'), ('version', '2.2.0'), ('xmlns:foreign', 'foreign')]
    if d.hasns:
        sa += [('targetNamespace', d.ns), ('xmlns:' + d.prefix, d.ns)]
    else:
        w.count('nonamespace')
        sa += rng.choice([[], [('targetNamespace', d.ns)], [('xmlns:' + d.prefix, d.ns)], [('targetNamespace', ''), ('xmlns:' + d.prefix, d.ns)]])
    nl = rng.choice(['', '\n', '\r\n  '])
    d.text = rng.choice(['', '<?xml version="1.0" encoding="UTF-8"?>\n']) + '<schema%s>' % attrs(rng, sa) + nl + nl.join(parts) + nl + '</schema>'
    return d


def annotation(rng):
    return rng.choice(['', '', '<annotation><documentation>an &lt;element&gt;</documentation></annotation>'])


def anonymous(w, rng, d, names):
    if rng.random() < 0.4:
        return '<simpleType><restriction base="string"><enumeration value="inner"/></restriction></simpleType>'
    inner = '<element name="inner" type="string"/><element ref="%s:%s"/>' % (d.prefix, rng.choice(names))
    if rng.random() < 0.3:
        inner += '<element name="deeper"><complexType><sequence><element name="deepest"/></sequence></complexType></element>'
    if rng.random() < 0.4:
        return '<complexType><complexContent><extension base="%s:x">%s</extension></complexContent></complexType>' % (d.prefix, inner)
    return '<complexType><sequence>%s</sequence></complexType>' % inner


class Model(object):
    def __init__(self, d):
        self.d = d

    def local(self, n):
        p = self.d.prefix + ':'
        return n[len(p):] if self.d.hasns and n.startswith(p) and len(n) > len(p) else None

    def etype(self, n):
        """-> None, 'prim', 'simple' or 'complex', and the type's name"""
        e = self.d.elements.get(n)
        t = e and e['type']
        if not t:
            return None, '-'
        if t in PRIM:
            return 'prim', t
        l = self.local(t)
        if l is None or l not in self.d.types:
            return None, '-'
        return self.d.types[l]['kind'], l

    def abstract(self, n):
        return self.d.elements[n]['abstract'] == 'true'

    def base(self, t):
        l = self.local(self.d.types[t]['base'])
        return l if l is not None and l in self.d.types and self.d.types[l]['kind'] == 'complex' else None

    def chain(self, t):
        """-> complete?, bases (up to the first repetition), cyclic?"""
        out = []
        seen = {t}
        cur = t
        if not self.d.hasns:
            return False, [], False
        while self.d.types[cur]['base']:
            b = self.base(cur)
            if b is None:
                return False, out, False
            if b in seen:
                return False, out, True
            seen.add(b)
            out.append(b)
            cur = b
        return True, out, False


def lst(o):
    return [x.decode('utf-8') for x in o]


def key(s):
    return s.encode('utf-8')


def case(w, rng, i):
    r = rng.random()
    if r < 0.1:
        damaged(w, rng)
        return
    d = make(w, rng)
    w.count('schemas')
    m = Model(d)
    els, types = sorted(d.elements, key=key), sorted(d.types, key=key)
    ops = [['xsdparse', d.text], ['xsdtypes']] + [['xsdlist', k] for k in ('all', 'abstract', 'complex', 'simple', 'ids')]
    base = len(ops)
    qe = els + ['nosuch', 'inner', 'local1', 'comment', 'ingroup', '']
    qt = types + ['nosuch', '', 'string']
    for n in qe:
        ops += [['xsdelement', n], ['xsdlist', 'children', n], ['xsdref', d.prefix + ':' + n], ['xsdref', n], ['xsdref', 'foreign:' + n]]
    for t in qt:
        ops += [['xsdtype', t], ['xsdhier', t], ['xsdlist', 'oftype', t], ['xsdinner', t]]
    o = [lst(x) for x in w.do(ops)]
    at = ' in %s' % d.text[:3000]
    w.eq(o[0], ['ok', ''] + ([d.ns, d.prefix] if d.hasns else ['', '']), 'schema', 'reading' + at)
    exp = []
    for t in types:
        exp += [t, d.types[t]['base'], '1' if d.types[t]['kind'] == 'complex' else '0']
    w.eq(o[1], exp, 'types', 'all types' + at)
    ab = [n for n in els if m.abstract(n)]
    co = [n for n in els if not m.abstract(n) and m.etype(n)[0] == 'complex']
    si = [n for n in els if not m.abstract(n) and m.etype(n)[0] in ('simple', 'prim')]
    w.eq(o[2:7], [els, ab, co, si, [str(len(ab)), str(len(ab) + len(co))] + ab + co + si], 'lists', 'element lists' + at)
    p = base
    for n in qe:
        e = d.elements.get(n)
        kind, tname = m.etype(n)
        exp = ['null'] if e is None else ['ok', n, e['type'] or '', e['substitutionGroup'] or '', e['default'] or '', '1' if m.abstract(n) else '0',
                                          '1' if kind == 'prim' else '0', tname]
        w.eq(o[p], exp, 'element', 'element %r' % n + at)
        exp = []
        if kind == 'complex':
            for k, v, _ in d.types[tname]['seq']:
                if k == 'name':
                    exp.append(v)
                else:
                    l = m.local(v)
                    if l is not None and l in d.elements:
                        exp.append(l)
                    # an unresolvable reference is not an element of this file
        got = [x for x in o[p + 1] if x != '-']
        w.eq(got, exp, 'children', 'children of %r' % n + at)
        known = n if d.hasns and n in d.elements else '-'
        own = m.local(n)
        w.eq(o[p + 2:p + 5], [[known], [own if own in d.elements else '-'], ['-']], 'ref', 'references to %r' % n + at)
        p += 5
    for t in qt:
        y = d.types.get(t)
        exp = ['null'] if y is None else ['ok', t, y['base'], '1' if y['kind'] == 'complex' else '0'] + y.get('enum', [])
        w.eq(o[p], exp, 'type', 'type %r' % t + at)
        if y is None or y['kind'] == 'simple':
            w.eq(o[p + 1:p + 3], [['0'], []], 'notcomplex', 'hierarchy of %r' % t + at)
        else:
            ok, ch, cyc = m.chain(t)
            if cyc:
                w.count('cycles')
                w.check(o[p + 1][0] == '0' and o[p + 1][1:1 + len(ch)] == ch, 'cycle', 'hierarchy of %r: %r, bases %r' % (t, o[p + 1][:20], ch) + at)
            else:
                w.eq(o[p + 1], ['1' if ok else '0'] + ch, 'hierarchy', 'hierarchy of %r' % t + at)
                if len(ch) > 1:
                    w.count('derived')
            exp = []
            for n in els:
                kind, tn = m.etype(n)
                if kind == 'complex' and d.hasns and (tn == t or t in m.chain(tn)[1]):
                    exp.append(n)
            w.eq(o[p + 2], exp, 'oftype', 'elements of type %r' % t + at)
        if y is None:
            exp = ['null']
        elif y['kind'] == 'simple':
            exp = ['simple', y['base'], '1' if y['base'] == 'string' and y['enum'] else '0', '1', '1']
        else:
            exp = ['complex', y['base'], '1' if y['base'] else '0']
            for k, v, ty in y['seq']:
                exp += [v, '1' if k == 'ref' else '0', ty, ty if ty in PRIM else '']
            w.count('sequences', len(y['seq']))
        w.eq(o[p + 3], exp, 'inner', 'parts of type %r' % t + at)
        p += 4
    built(w, rng, d)
    k = rng.randrange(23)
    names = ['', *PRIM[:17], 'QNAME', *PRIM[17:]]
    u = rng.choice([names[k], rng.choice(names), 'nosuch'])
    x = lst(w.do([['xsdprim', str(k), u]])[0])
    w.eq(x, [names[k], str(k)] + ([names[k], 'xsd:primitive', '0', '0', ('1' if u == names[k] else '0') if u in names[1:] else '-'] if k else ['null']), 'primitive', 'built-in type %d, compared with %r' % (k, u))
    if rng.random() < 0.3:
        aliases(w, rng, d)
    w.seen(d.text)
    w.sample({'xsd': d.text[:300]})


def built(w, rng, d):
    """what the functions that make a schema, a type or an element make"""
    t, n = rng.choice(NAMES), rng.choice(NAMES)
    ty = rng.choice([rng.choice(PRIM), d.prefix + ':' + t, 'x', ''])
    l = rng.choice(NAMES)
    q = rng.choice([d.prefix + ':' + l, l, 'foreign:' + l, d.prefix + ':', d.prefix + l, 'x' + d.prefix + ':' + l, d.prefix + '::' + l, ''])
    p = d.prefix + ':'
    loc = q[len(p):] if q.startswith(p) and len(q) > len(p) else None
    o = lst(w.do([['xsdmk', d.prefix, d.ns, t, n, ty, q]])[0])
    hit = '0' if loc is None else '1'
    w.eq(o, [t, '', n, ty, '00' + ('1' if ty in PRIM else '0'), '', '', d.ns, d.prefix, hit, 'unset' if loc is None else loc, hit, '2', n, q, '1' if q else '0'],
         'built', 'made from %r' % [d.prefix, d.ns, t, n, ty, q])


def aliases(w, rng, d):
    w.count('aliases')
    want, lines = {}, []
    for _ in range(gen.many(rng, [0, 1, 4, 10], (60,), 0.01)):
        a, b = rng.choice(NAMES), rng.choice(NAMES)
        r = rng.random()
        sp = ' '
        if r < 0.7:
            lines.append(sp.join(['alias', a, b]))
            want[a] = b
        else:
            lines.append(rng.choice(['', 'alias', 'alias ' + a, 'alias %s %s c' % (a, b), '# alias', 'element %s %s' % (a, b), 'Alias %s %s' % (a, b), '   ']))
    o = w.do([['xsdparse', d.text], ['xstalias', '\n'.join(lines) + rng.choice(['', '\n', '\n\n'])] + NAMES])
    w.eq(lst(o[1]), [want.get(n, '') for n in NAMES], 'alias', 'aliases of %r' % lines)


def damaged(w, rng):
    """Broken or foreign text is refused or read without a fault, and never hangs."""
    w.count('damaged')
    d = make(w, rng)
    t = d.text
    r = rng.random()
    if r < 0.3:
        t = t[:rng.randrange(len(t))]
    elif r < 0.6:
        k = rng.randrange(len(t))
        t = t[:k] + rng.choice(['<', '&', '"', '</element>', '<complexType>', '</complexType>', '<simpleType name="q">', '']) + t[k + rng.randrange(5):]
    elif r < 0.8:
        t = rng.choice(['<element name="a"/>', '<complexType name="t"/>', '<simpleType/>', '<extension base="x"/>', '<enumeration value="1"/>', '<schema/>', '<x/>', '', ' ',
                        '<element ref="a:b"><schema targetNamespace="a" xmlns:a="a"/></element>', '<complexType><complexType name="a"/></complexType>',
                        '<schema><schema targetNamespace="a" xmlns:a="a"><element name="n" type="a:b"/></schema></schema>'])
    else:
        parts = re.findall(r'<[^>]*>|[^<]+', t)
        rng.shuffle(parts)
        t = '<r>' + ''.join(parts[:40]) + '</r>'
    o = w.do([['xsdparse', t]])[0]
    well = None
    try:
        import xml.parsers.expat
        q = xml.parsers.expat.ParserCreate()
        q.Parse(t.encode('utf-8'), True)
        well = True
    except xml.parsers.expat.ExpatError:
        well = False
    w.check((o[0] == b'ok') == well and (well or o[1]), 'wellformed', 'result %r for %r, well-formed: %s' % (o[:2], t[:1000], well))
    if well:
        names = re.findall(r'name=["\']([^"\']*)', t)[:12] + ['inner', '']
        ops = [['xsdparse', t], ['xsdtypes']] + [['xsdlist', k] for k in ('all', 'abstract', 'complex', 'simple', 'ids')]
        for n in names:
            ops += [['xsdelement', n], ['xsdlist', 'children', n], ['xsdtype', n], ['xsdinner', n], ['xsdhier', n], ['xsdlist', 'oftype', n]]
        w.do(ops)
    w.seen(t)
