"""Old-style Schema instances are read as Placemarks holding their fields as SimpleData, whatever the document."""
from . import gen
ID = 'C13'
RULE = ('documents with an old-style Schema (parent attribute) and any number of its instances among other features in nested containers, '
        'fields with text, markup, entities, repeats and unknown names; compared with the document the conversion documented in kml_handler.h '
        'denotes; distinct by text')
CASES = {'quick': 32000, 'thorough': 300000}
MIN = {'checks': 30000, 'instances': 20000, 'fields': 20000, 'converted': 1500, 'second': 8000, 'markup': 1500, 'first': 1500}
FIELDS = ['Foo', 'NAME', 'area_km2', 'b', 'Zed', 'field-1', 'F.x', '\u00e9t\u00e9',
          'a_name_as_long_as_names_may_well_be_01', 'a_name_as_long_as_names_may_well_be_02', 'a_name_as_long_as_names_may_well_be', 'Foo' * 30, 'NAME1', 'name1']

OTHERS = ['other', 'other', 'a_name_as_long_as_names_may_well_be_03', 'Fo', 'Foo2', 'foo', 'NAMES', 'F.', 'Foo' * 29, 'Foo' * 31]


def esc(s):
    return gen.esc_text(s).replace('\r', '&#13;')


def text(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice(['x', '1', '', 'foo bar', '42.5'])
    return gen.g_string(rng, multiline=False)


def case(w, rng, i):
    fields = rng.sample(FIELDS, rng.choice([0, 1, 2, 4]))
    name = rng.choice(['S_park_SS', 'S_521_525_SSSSS', 'Q', 'my-schema', 'PlacemarkX'])
    order = rng.random() < 0.5
    attrs = [' parent="%s"' % rng.choice(['Placemark', 'Placemark', '']), ' name="%s"' % name]
    if order:
        attrs.reverse()
    types = [rng.choice(['string', 'wstring', 'double', 'int']) for _ in fields]
    sfs = ''.join('<SimpleField%s name="%s"%s' % (' type="%s"' % y if rng.random() < 0.8 else '', f, rng.choice(['/>', '/>', '><displayName>d</displayName></SimpleField>'])) for y, f in zip(types, fields))
    if rng.random() < 0.1:
        sfs += '<SimpleField type="int"/>'
    schema = '<Schema%s%s>%s</Schema>' % (''.join(attrs), ' id="old"' if rng.random() < 0.1 else '', sfs)
    new = '<Schema%s id="%s_id">%s</Schema>' % (''.join(attrs).replace('parent=', 'parenX='), name, sfs)
    count = [0]
    later = rng.random() < 0.3      # an ordinary Schema with fields of its own

    def field(f):
        return '<%s>%s</%s>' % (f, esc(text(rng)), f)

    def instance(name=name, fields=fields, depth=0):
        a, b = [], []
        data = []
        parts = []
        nm = None
        if rng.random() < 0.5:
            nm = '<name>%s</name>' % esc(text(rng))
            parts.append(('k', nm))
        if rng.random() < 0.4:
            parts.append(('k', '<Point><coordinates>%d,%d,0</coordinates>%s</Point>' % (rng.randrange(9), rng.randrange(9), field(rng.choice(fields)) if fields and rng.random() < 0.2 else '')))
        if rng.random() < 0.2:
            parts.append(('k', '<styleUrl>#s</styleUrl>'))
        if fields and rng.random() < 0.1:       # nor do those of a feature which stands within
            parts.append(('k', '<{0}><name>in</name>{1}</{0}>'.format(rng.choice(['Placemark', 'Folder', 'NetworkLink']), field(rng.choice(fields)))))
        if later and rng.random() < 0.2:
            parts.append(('u', 'Later', esc(text(rng))))
        if depth < 2 and rng.random() < 0.05:
            parts.append(('n',) + instance(name, fields, depth + 1))
            w.count('nested')
        own = ''
        if rng.random() < 0.1:
            own = ''.join('<Data name="q%d"><value>%s</value></Data>' % (j, esc(text(rng))) for j in range(gen.many(rng, [0, 1, 1, 2, 3], (20, 80), 0.01)))
            if rng.random() < 0.3:
                own += '<SchemaData schemaUrl="#z"><SimpleData name="s">1</SimpleData></SchemaData>' * rng.choice([1, 2])
            parts.append(('o', '<ExtendedData>%s</ExtendedData>' % own))
            w.count('own_data')
        for _ in range(gen.many(rng, [0, 1, 2, 3, 6], (20, 80), 0.01)):
            f = rng.choice(fields) if fields and rng.random() < 0.85 else rng.choice(OTHERS)
            if first and allf and rng.random() < 0.2:    # a field of another Schema
                f = rng.choice(allf)
            t = u = esc(text(rng))
            known = f in fields
            if not known and rng.random() < 0.5:
                t += '<b c="d">%s</b>' % esc(text(rng))
            elif known and rng.random() < 0.15:     # markup in a field is its text
                m = '<%s c="%s">%s</%s>' % (('b', rng.choice(['d', '1 &amp; 2']), rng.choice(['x', '', 'p &amp; q &lt; r', '<i>k &amp; l</i>m', 'two  words ']), 'b'))
                x = rng.choice(['', ' tail', 'z'])
                t, u = t + m + x, t + esc(m) + x
                w.count('markup')
            parts.append(('f' if known else 'u', f, t, u))
        rng.shuffle(parts)
        for p in parts:
            if p[0] == 'k':
                a.append(p[1])
                b.append(p[1])
            elif p[0] == 'o':
                a.append(p[1])
            elif p[0] == 'n':
                a.append(p[1])
                b.append(p[2])
            else:
                x = '<%s>%s</%s>' % (p[1], p[2], p[1])
                a.append(x)
                if p[0] == 'u':
                    b.append(x)
                else:
                    data.append('<SimpleData name="%s">%s</SimpleData>' % (p[1], p[3]))
                    w.count('fields')
        b.append('<ExtendedData>' + own + '<SchemaData schemaUrl="%s_id">%s</SchemaData></ExtendedData>' % (name, ''.join(data)))
        count[0] += 1
        w.count('instances')
        if count[0] > 1:
            w.count('second')
        return '<%s>%s</%s>' % (name, ''.join(a), name), '<Placemark>%s</Placemark>' % ''.join(b)

    def other():
        x = rng.choice(['<Placemark><name>p</name></Placemark>', '<Placemark><ExtendedData><Data name="q"><value>v</value></Data></ExtendedData></Placemark>', '<NetworkLink/>',
                        '<GroundOverlay><name>g</name></GroundOverlay>', '<zzz>%s</zzz>' % esc(text(rng)), '<Placemark><yyy>1</yyy></Placemark>', '<Document><name>in</name></Document>'])
        if fields and rng.random() < 0.3:       # the name of a field means nothing elsewhere
            f = field(rng.choice(fields))
            x = rng.choice([f, '<Placemark>%s</Placemark>' % f, '<Folder><name>f</name>%s</Folder>' % f, '<Placemark><Point>%s</Point></Placemark>' % f])
            w.count('elsewhere')
        elif rng.random() < 0.1:
            x = rng.choice(['<First><name>n</name></First>', '<First>%s</First>' % esc(text(rng))])
        return x, x

    def fill(depth):
        a, b = [], []
        for _ in range(gen.many(rng, [1, 2, 3, 5], (40, 120), 0.01)):
            r = rng.random()
            if r < 0.55:
                x, y = instance()
            elif r < 0.75 and depth < 3:
                x, y = fill(depth + 1)
                x, y = '<Folder>%s</Folder>' % x, '<Folder>%s</Folder>' % y
            else:
                x, y = other()
            a.append(x)
            b.append(y)
        return ''.join(a), ''.join(b)
    ff = rng.sample(FIELDS, rng.choice([0, 1, 3]))
    first = rng.random() < 0.2
    allf = fields + ff
    x, y = fill(0)
    pre = rng.choice(['', '<name>d</name>', '<Style id="s"/>'])
    px, py = pre, pre
    if first:                       # an earlier Schema of the kind, whose instances end with the later one
        sf = ''.join('<SimpleField type="int" name="%s"/>' % f for f in ff)
        px += '<Schema name="First" parent="Placemark">%s</Schema>' % sf
        py += '<Schema name="First" parenX="Placemark" id="First_id">%s</Schema>' % sf
        for _ in range(rng.choice([0, 1, 3])):
            u, v = instance('First', ff)
            px += u
            py += v
        w.count('first')
    if rng.random() < 0.1:          # what comes before the Schema is unknown
        f = '<%s><name>n</name></%s>' % (name, name)
        px, py = px + f, py + f
    if later:
        f = '<Schema id="own" name="%s"><SimpleField type="int" name="Later"/></Schema>' % rng.choice(['Own', 'Own', name])
        if rng.random() < 0.3:
            px, py = px + f, py + f
        else:
            x, y = f + x, f + y
        w.count('ordinary')
    a = '<kml><Document>%s%s%s</Document></kml>' % (px, schema, x)
    b = '<kml><Document>%s%s%s</Document></kml>' % (py, new, y)
    # instances before the Schema are unknown elements
    o = w.do([['parse', 'a', a, 'plain'], ['dump', 'a'], ['parse', 'b', b, 'plain'], ['dump', 'b'], ['stream', 'c', a, 'good', '-1'], ['dump', 'c'], ['parents', 'a'],
              ['ser', 'a', 'raw']])
    w.check(o[0][0] == b'ok' and o[2][0] == b'ok', 'parse', 'both documents parse')
    w.eq(o[1][0], o[3][0].replace(b'parenX', b'parent'), 'converted', 'document read from\n%s\nand its converted form\n%s\n' % (a[:1500], b[:1500]))
    w.eq(o[5][0], o[1][0], 'stream', 'read from a stream')
    w.check(o[6][1] == b'0' and o[6][2] == b'0', 'shared', 'every element has one parent: %r' % o[6])
    o2 = w.do([['parse', 'r', o[7][0], 'plain'], ['dump', 'r']])
    # the engine's conversion of one instance
    if rng.random() < 0.4:
        body = rng.choice(['<name>n</name>', '', '<name>%s</name><NAME>v</NAME>' % esc(text(rng)), '<Point/>', 'text'])
        t = rng.choice(['<%s>%s</%s>' % (name, body, name)] * 3 + ['<other>%s</other>' % body, '<%s>%s' % (name, body), name, '', '<%s a="b">%s</%s>' % (name, body, name), '<', '>', '<>'])
        q = w.do([['convertold', t, a], ['parseold', t, a, 'p'], ['dump', 'p'], ['parse', 'e', '<Placemark>%s</Placemark>' % body, 'plain'], ['dump', 'e']])
        if t == '<%s>%s</%s>' % (name, body, name):
            w.eq(q[0], [b'1', ('<Placemark>%s</Placemark>' % body).encode('utf-8', 'surrogateescape')], 'convert', 'converted instance')
            w.eq(q[2][0], q[4][0], 'parseold', 'parsed instance')
            w.count('converted')
        else:
            w.eq((q[0][0], q[1][0]), (b'0', b'null'), 'noconvert', 'no instance: %r' % t)
    w.seen(a)
    w.sample({'text': a[:300]})
