"""Round trip: parse -> serialize -> parse keeps every known value, in schema order."""
from . import edits, gen, reader, schema as S
ID = 'C03'
RULE = ('random KML models over every element class, spelled as XML with random child order, CDATA, character references, comments, '
        'number spellings; a case is non-trivial when the model has at least 3 set values; distinct by expected dump')
CASES = {'quick': 30000, 'thorough': 200000}
MIN = {'checks': 20000, 'values': 20000, 'edited': 10000}
ROOTS = sorted(set(S.CLASSES) - {'IconStyleIcon'})


def alt0(n):
    """Coordinates are always written with an altitude."""
    for x in n.walk():
        for fl in S.CLASSES[x.cls].fields:
            v = x.f.get(fl.acc)
            if fl.kind in 'PV' and v is not None:
                x.f[fl.acc] = [(a, b, 0.0 if c is None else c) for a, b, c in v]
    return n


def strip_text(n):
    for x in n.walk():
        for fl in S.CLASSES[x.cls].fields:
            if fl.kind == 'T' and fl.acc in x.f:
                x.f[fl.acc] = x.f[fl.acc].strip()
    return n


def has_text(n):
    return any(fl.kind == 'T' and fl.acc in x.f for x in n.walk() for fl in S.CLASSES[x.cls].fields)


def values(n):
    return sum(len(x.f) for x in n.walk())


def check_out(w, what, data, cls, exp, tstrip):
    order = []
    try:
        g = gen.dump(reader.read(data, cls, tstrip=tstrip, order=order))
    except reader.Malformed as e:
        w.fail('malformed:' + what, '%s: output is not well-formed: %s\n%r' % (what, e, data[:2000]))
    except (reader.NotKml, ValueError) as e:
        w.fail('notkml:' + what, '%s: %s\n%r' % (what, e, data[:2000]))
    w.eq(g, exp, 'written:' + what, 'values read from the %s output by an independent reader' % what)
    w.check(not order, 'order:' + what, lambda: '%s: children out of schema order: %r' % (what, order[:2]))


def gen_model(rng, big=None):
    cls = rng.choice(ROOTS) if rng.random() < 0.6 else rng.choice(['Kml', 'Document', 'Folder', 'Placemark', 'Kml'])
    budget = big or rng.choice([3, 10, 30, 60, 150])
    dens = rng.choice([0.15, 0.3, 0.5, 0.9])
    return gen.parsed(gen.G(rng, budget, dens).node(cls)), cls


def case(w, rng, i):
    n, cls = gen_model(rng)
    wr = gen.Writer(rng, noise=rng.choice([0, 0, 0.15, 0.4]), shuffle=rng.random() < 0.5, cdata=rng.choice([0, 0.3, 1]))
    api = rng.random() < 0.35
    xml = wr.doc(n) if not api and cls != 'Coordinates' and rng.random() < 0.5 else wr.xml(n)
    exp = gen.dump(n)
    nl, ind = rng.choice([('\n', '  '), ('\n', ''), ('', '  '), ('\r\n', '\t'), ('\n\n', ' ')])
    if api:
        ops = gen.api_ops(n, 'r', [], [0], rng)
    else:
        ops = [['parse', 'r', xml, 'kml' if rng.random() < 0.3 else '']]
    k = len(ops)
    ops += [['dump', 'r'], ['ser', 'r', 'raw'], ['ser', 'r', 'pretty'], ['ser2', 'r', nl, ind], ['dump', 'r']]
    o = w.do(ops)
    if not api:
        w.check(o[0][0] == b'ok', 'rejected', lambda: 'a valid document was rejected: %r\n%s' % (o[0], xml[:3000]))
    d0, raw, pretty, cust, d1 = (x[0] for x in o[k:])
    w.eq(d0.decode('latin1'), exp, 'built:api' if api else 'parsed', 'values after %s' % ('construction' if api else 'parse of ' + xml[:1500]))
    w.eq(d1, d0, 'sideeffect', 'serialization changed the document')
    alt0(n)
    exp2 = gen.dump(n)
    check_out(w, 'raw', raw, cls, exp2, False)
    t = has_text(n)
    modes = [('pretty', pretty), ('custom', cust)]
    exp3 = gen.dump(strip_text(n)) if t else exp2
    for nm, data in modes:
        check_out(w, nm, data, cls, exp3, True)
    # the library reads its own output back to the same values, and writes it the same way
    o = w.do([['parse', 'a', raw], ['dump', 'a'], ['ser', 'a', 'raw'], ['parse', 'b', pretty], ['dump', 'b'], ['ser', 'b', 'pretty'],
              ['parse', 'c', cust], ['dump', 'c'], ['ser', 'b', 'raw']])
    w.check(o[0][0] == b'ok' and o[3][0] == b'ok' and o[6][0] == b'ok', 'reparse', 'own output was rejected')
    w.eq(o[1][0].decode('latin1'), exp2, 'reread:raw', 'raw output read back')
    w.eq(o[2][0], raw, 'stable:raw', 'raw output of the re-read document')
    if not t:
        w.eq(o[4][0].decode('latin1'), exp2, 'reread:pretty', 'pretty output read back')
        w.eq(o[7][0].decode('latin1'), exp2, 'reread:custom', 'custom output read back')
        w.eq(o[5][0], pretty, 'stable:pretty', 'pretty output of the re-read document')
        w.eq(o[8][0], raw, 'agree', 'raw output of the document read from the pretty output')
    # what is written follows edits of a document written before
    did = edits.edit(w, rng, 'a', 3)
    o = w.do([['dump', 'a'], ['ser', 'a', 'raw'], ['ser', 'a', 'pretty']])
    o += w.do([['parse', 'b', o[1][0]], ['dump', 'b'], ['parse', 'c', o[2][0]], ['dump', 'c'], ['ser', 'c', 'raw']])
    d = edits.norm(o[0][0])
    w.eq(edits.norm(o[4][0]), d, 'edited', 'raw output after %r' % did)
    if not t and not any(x[2] in ('text', 'maxlines') for x in did):
        w.eq(edits.norm(o[6][0]), d, 'edited:pretty', 'pretty output after %r' % did)
    w.count('edited', len(did))
    v = values(n)
    w.count('values', v)
    w.count('docs_api' if api else 'docs_parsed')
    for x in n.walk():
        w.count('cls_' + x.cls)
    if v >= 3:
        w.seen(exp)
    w.sample({'class': cls, 'values': v, 'xml': xml[:300]})
