"""Output is always well-formed XML from which every string set through the API is recovered exactly."""
from . import gen, reader, schema as S
from .c03 import alt0, ROOTS
ID = 'C04'
RULE = ('elements built through the API with hostile strings (markup, CDATA markers, entities, every control character XML can carry, '
        'all planes of Unicode, lengths around buffer sizes) in every string field, attribute and unknown attribute; distinct by expected dump')
CASES = {'quick': 54000, 'thorough': 150000}
MIN = {'checks': 20000, 'strings': 20000, 'late': 1000}
FRAG = ['<', '>', '&', '"', "'", ']]>', '<![CDATA[', ']]', ']', '\r', '\n', '\t', '\r\n', '&amp;', '&lt;', '&#13;', '&#x3c;', '&quot;', '<!--', '-->', '<?', '?>',
        '</name>', '</kml>', '<a href="x" b=\'y\'>', '\x7f', '\x85', '\u2028', '\ufffd', '\ue000', '\U0010fffd', '\U0001f30d', '\u00a0', ' ', '  ',
        'a', 'Z', '9', 'word', '\ud7ff', '$[name]', '%', '\\', '/', '=', '&&&', '<<<', '>>>', "''", '""', 'é', '漢字', ']]>]]>', '<![CDATA[<![CDATA[', ']]&gt;']


XMLNS = [('xmlns', 'http://www.opengis.net/kml/2.2'), ('xmlns:gx', 'http://www.google.com/kml/ext/2.2'), ('xmlns:atom', 'http://www.w3.org/2005/Atom'), ('xmlns:foo', 'http://foo')]


def hostile(rng, *a):
    r = rng.random()
    if r < 0.1:
        return rng.choice(FRAG)
    if r < 0.15:
        return ''
    s = ''.join(rng.choice(FRAG) for _ in range(rng.choice([1, 2, 3, 5, 8, 20])))
    if r > 0.97:
        n = rng.choice([254, 255, 256, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8193, 40000])
        s = (s + 'x' * n)[:n] if rng.random() < 0.5 else 'x' * (n - 2) + s
    return s


ANAMES = ['foo', 'x:y', 'data-1', '_u', 'name2', 'Zed']


def case(w, rng, i):
    cls = rng.choice(ROOTS) if rng.random() < 0.8 else rng.choice(sorted(S.GROUPS['Feature']))
    g = gen.G(rng, rng.choice([1, 2, 5, 20]), rng.choice([0.3, 0.6, 1.0]), strfn=hostile, idfn=hostile)
    n = gen.parsed(g.node(cls))
    for x in n.walk():
        for fl in S.CLASSES[x.cls].fields:
            if fl.kind == 'S' and fl.acc in x.f:
                pass
    alt0(n)
    ops = gen.api_ops(n, 'r', [], [0], rng)
    if rng.random() < 0.4 and cls != 'Coordinates':
        n.uattrs = {a: hostile(rng) for a in rng.sample(ANAMES, rng.randrange(1, 4))}
        ops.append(['addattr', 'r'] + [z for kv in n.uattrs.items() for z in kv])
    k = len(ops)
    wrap = cls in S.GROUPS['Feature'] and rng.random() < 0.5
    kf = rng.random() < 0.5
    ops += [['dump', 'r'], ['ser', 'r', 'raw'], ['ser', 'r', 'pretty']]
    if kf:
        if wrap:        # below a kml which has namespaces already
            ops.append(['parse', 'kk', '<kml%s/>' % ''.join(' %s="%s"' % x for x in XMLNS if rng.random() < 0.4), 'plain'])
        late = wrap and rng.random() < 0.5
        if late:        # the file was written before: what came since is declared too
            ops += [['kfimport', 'f', 'kk', 'lax'], ['kfser', 'f']]
            w.count('late')
        if wrap:
            ops.append(['cset', 'kk', 'feature', 'r'])
        k2 = len(ops) - late
        ops += ([] if late else [['kfimport', 'f', 'kk' if wrap else 'r', 'lax']]) + [['kfser', 'f'], ['kfserstream', 'f']]
        st = rng.random() < 0.5        # either may come first
        if st:
            ops[-2:] = [ops[-1], ops[-2]]
    o = w.do(ops)
    exp = gen.dump(n)
    w.eq(o[k][0].decode('latin1'), exp, 'built', 'values after construction')
    raw, pretty = o[k + 1][0], o[k + 2][0]
    outs = [('raw', raw, False), ('pretty', pretty, True)]
    if kf:
        if st:
            o[k2 + 1], o[k2 + 2] = o[k2 + 2], o[k2 + 1]
        w.eq(o[k2 + 2], o[k2 + 1], 'kfstream', 'the two whole-file serializations differ')
        outs.append(('file', o[k2 + 1][1], True))
        w.check(o[k2 + 1][0] == b'1', 'kfser', 'serialization reported failure')
    back = {}
    for nm, data, strip in outs:
        try:
            t = reader.tree(data)
        except reader.Malformed as e:
            w.fail('malformed:' + nm, 'output is not well-formed: %s\n%r' % (e, data[:3000]))
        m = reader.node(t, 'Kml' if nm == 'file' and wrap else cls, tstrip=strip)
        if nm == 'file' and wrap:
            m = m.f['feature']
        if nm == 'file':
            m.xm = {}
            if 'x:y' not in n.uattrs:
                w.check(reader.ns_ok(data), 'namespaces', lambda: 'a prefix is not declared in the whole-file output\n%r' % data[:2000])
        e2 = exp
        if strip:
            from .c03 import strip_text
            e2 = gen.dump(strip_text(m2(n)))
        w.eq(gen.dump(m), e2, 'recovered:' + nm, 'strings read by an independent XML reader from the %s output' % nm)
    o = w.do([['parse', 'q', raw], ['dump', 'q']])
    w.eq(o[1][0].decode('latin1'), exp, 'reread', 'strings read back by the library')
    ns = sum(1 for x in n.walk() for fl in S.CLASSES[x.cls].fields if fl.kind in 'sTS' and fl.acc in x.f)
    w.count('strings', ns)
    if ns:
        w.seen(exp)
        w.sample({'class': cls, 'dump': exp[:300]})


def m2(n):
    """Copies the model."""
    c = gen.Node(n.cls)
    c.uattrs = dict(n.uattrs)
    c.xm = dict(n.xm)
    for fl in S.CLASSES[n.cls].fields:
        v = n.f.get(fl.acc)
        if v is None:
            continue
        c.f[fl.acc] = m2(v) if fl.kind == 'C' else [m2(x) for x in v] if fl.kind == 'A' else (list(v) if isinstance(v, list) else v)
    return c
