"""A clone is equal to its original and shares nothing with it."""
import re
from . import gen, reader, schema as S
from .c05 import foreign, TEXTY, TEXTS, TAGS, taken
ID = 'C07'
RULE = ('random documents over every element class, parsed or built through the API, with foreign and misplaced content; the whole and random '
        'sub-elements are cloned; then random edits are made to one side; distinct by dump of the original')
CASES = {'quick': 27000, 'thorough': 120000}
MIN = {'checks': 20000, 'elements_cloned': 20000, 'edits': 5000}
ROOTS = sorted(set(S.CLASSES) - {'IconStyleIcon'})


# An empty text of a text-only element is no text: KML has no spelling which tells them apart.
EMPTY = re.compile(rb'(\((?:Snippet|LinkSnippet|SimpleData)(?: (?:maxlines|name)="[^"]*")*) text=""')


def norm(d):
    return EMPTY.sub(rb'\1', d).decode('latin1')


def extras(rng, p):
    def f(n):
        if rng.random() >= p or n.cls in TEXTY:
            return []
        if rng.random() < 0.6:
            return [[foreign(rng)]]
        c = S.CLASSES[n.cls]
        for _ in range(5):
            t = rng.choice(sorted(TAGS))
            if not taken(c, t):
                break
        else:
            return []
        if isinstance(TAGS[t], S.Cls):
            m = gen.G(rng, 6, 0.3).node(S.BYXML[t].name)
            return [[gen.Writer(rng).xml(m)]]
        return [['<%s>%s</%s>' % (t, rng.choice(['1', 'x', '0', 'true']), t)]]
    return f


def edit(rng, cls, reg, ctr):
    """Random mutation of an element of this class through its API."""
    c = S.CLASSES[cls]
    fs = [f for f in c.fields]
    if not fs:
        return []
    fl = rng.choice(fs)
    g = gen.G(rng, 3, 0.5)
    ops = []
    if fl.kind in 'CA':
        v = g.value(fl, 0)
        if rng.random() < 0.3 and fl.kind == 'C':
            return [['clear', reg, fl.acc]]
        for x in (v if isinstance(v, list) else [v] if v else []):
            ctr[0] += 1
            gen.api_ops(x, 'e%d' % ctr[0], ops, ctr)
            ops.append(['cset', reg, fl.acc, 'e%d' % ctr[0] if False else ops[0][1]])
            break
        return ops
    if fl.kind in 'EPSV':
        v = g.value(fl, 0)
        m = gen.Node(cls)
        if not v:
            return []
        m.f[fl.acc] = v
        return [o for o in gen.api_ops(m, reg, [], ctr) if o[0] == 'set']
    if rng.random() < 0.3:
        return [['clear', reg, fl.acc]]
    m = gen.Node(cls)
    m.f[fl.acc] = g.value(fl, 0)
    return [o for o in gen.api_ops(m, reg, [], ctr) if o[0] == 'set']


def case(w, rng, i):
    cls = rng.choice(ROOTS) if rng.random() < 0.6 else rng.choice(['Kml', 'Document', 'Folder', 'Placemark'])
    n = gen.G(rng, gen.many(rng, [3, 10, 30, 80], (400,), 0.005), rng.choice([0.2, 0.4, 0.9])).node(cls)
    ctr = [0]
    if rng.random() < 0.4:
        ops = gen.api_ops(n, 'r', [], ctr, rng)
        if rng.random() < 0.3 and cls not in TEXTY:
            ops.append(['addunknown', 'r', '<zz>1</zz>'])
        how = 'api'
    else:
        for x in n.walk():
            if rng.random() < 0.1 and x.cls not in TEXTY:
                x.uattrs[rng.choice(['zz', 'my:a', 'data-x'])] = rng.choice(TEXTS)
        wr = gen.Writer(rng, noise=0.1, shuffle=True, extra=extras(rng, rng.choice([0, 0.1, 0.3])))
        ops = [['parse', 'r', wr.doc(n) if cls != 'Coordinates' and rng.random() < 0.5 else wr.xml(n)]]
        how = 'parsed'
    o = w.do(ops + [['dump', 'r'], ['clone', 'r', 'c'], ['dump', 'c'], ['ser', 'r', 'raw'], ['ser', 'c', 'raw'], ['ptrs', 'r', 'c'],
                    ['parents', 'c'], ['parent', 'c', 'p'], ['dump', 'r'], ['type', 'r'], ['type', 'c'],
                    ['pick', 'r', rng.randrange(10 ** 6), 's'], ['clone', 's', 't'], ['dump', 's'], ['dump', 't'], ['ptrs', 'r', 't'],
                    ['parent', 't', 'p'], ['pick', 'c', rng.randrange(10 ** 6), 'x'], ['pick', 'r', rng.randrange(10 ** 6), 'y']])[len(ops):]
    d0, c0 = o[0][0], o[2][0]
    w.check(o[1][0] == b'ok', 'null', 'clone of a document is NULL')
    w.eq(norm(c0), norm(d0), 'equal:' + how, 'the clone differs from the original')
    w.eq(o[4][0].replace(b'></SimpleData>', b'/>'), o[3][0].replace(b'></SimpleData>', b'/>'), 'serialized', 'the clone serializes differently')
    w.eq(o[5][2], b'0', 'shared', 'elements shared between original and clone (of %s/%s)' % (o[5][0], o[5][1]))
    w.eq(o[6][1:3], [b'0', b'0'], 'parents', 'children of the clone with another parent than their holder, elements held twice: %r' % o[6])
    w.eq(o[7][0], b'null', 'rootparent', 'the clone has a parent')
    w.eq(o[8][0], d0, 'original', 'cloning changed the original')
    w.eq(o[10], o[9], 'type', 'type of the clone')
    w.eq(norm(o[14][0]), norm(o[13][0]), 'subequal', 'the clone of a contained element differs from it')
    w.eq(o[15][2], b'0', 'subshared', 'elements shared between the original and the clone of a part')
    w.eq(o[16][0], b'null', 'subparent', 'the clone of a contained element has a parent')
    w.count('elements_cloned', int(o[5][0]))
    # edits on one side are not seen on the other
    for reg, other, exp, cl in (('x', 'r', d0, o[17][1]), ('y', 'c', None, o[18][1])):
        cl = cl.decode()
        if cl not in S.CLASSES:
            continue
        ops = edit(rng, cl, reg, ctr)
        if exp is None:
            exp = w.do([['dump', other]])[0][0]
        q = w.do(ops + [['dump', other], ['ser', other, 'raw']])
        w.eq(q[len(ops)][0].decode('latin1'), exp.decode('latin1'), 'independent', 'an edit of one side changed the other: %r' % ops[-2:])
        w.count('edits', 1 if ops else 0)
    # the clone outlives the original
    q = w.do([['dump', 'c'], ['drop', 'r'], ['drop', 's'], ['drop', 'y'], ['drop', 'p'], ['dump', 'c'], ['ser', 'c', 'pretty'], ['clone', 'c', 'k'], ['dump', 'k']])
    w.eq(q[5][0], q[0][0], 'outlive', 'the clone changed when the original was released')
    w.eq(norm(q[8][0]), norm(q[5][0]), 'cloneofclone', 'a clone of the edited clone differs from it')
    w.seen(d0)
    w.sample({'class': cls, 'how': how, 'dump': d0[:300].decode('latin1')})
