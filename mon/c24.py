"""Every walker of a document meets every element exactly once, in document order."""
from . import gen, reader, schema as S
from .c03 import alt0
ID = 'C24'
RULE = ('random documents over every element class, parsed or API-built, with shared and repeated ids; each walker, finder, visitor, counter '
        'and id tool is run on the whole and compared with the generating model; distinct by model')
CASES = {'quick': 24000, 'thorough': 300000}
MIN = {'checks': 50000, 'elements': 50000, 'found': 5000, 'dups': 500}
ROOTS = sorted(set(S.CLASSES) - {'IconStyleIcon'})
ABS = {'Object': lambda c: S.CLASSES[c].is_object}
for _g in ('Feature', 'Geometry', 'StyleSelector', 'Container', 'AbstractView', 'TimePrimitive'):
    ABS[_g] = (lambda g: lambda c: c in S.GROUPS[g] or (g == 'TimePrimitive' and c in S.GROUPS['GxTime']))(_g)
ABS['Overlay'] = lambda c: c in ('GroundOverlay', 'PhotoOverlay', 'ScreenOverlay')
ABS['ColorStyle'] = lambda c: c in ('IconStyle', 'LabelStyle', 'LineStyle', 'PolyStyle')
SUB = {'TimeSpan': ['gx:TimeSpan'], 'TimeStamp': ['gx:TimeStamp'], 'SimpleField': ['gx:SimpleArrayField']}
ABS['SubStyle'] = lambda c: ABS['ColorStyle'](c) or c in ('BalloonStyle', 'ListStyle')
ABS['Vec2'] = lambda c: c in ('HotSpot', 'OverlayXY', 'ScreenXY', 'RotationXY', 'Size')
ABS['AbstractLatLonBox'] = lambda c: c in ('LatLonBox', 'LatLonAltBox')
ABS['BasicLink'] = lambda c: c in ('Link', 'Icon', 'Url', 'IconStyleIcon')
FOREIGN = ('Atom', 'Xal')        # not part of the visitor API


def pre(n):
    return list(n.walk())


def post(n, ok):
    out = []
    for _, k in n.kids():
        if ok(k):
            out += post(k, ok)
    return out + [n]


def vis(n, ok):
    out = [n]
    for _, k in n.kids():
        if ok(k):
            out += vis(k, ok)
    return out


def xml(n):
    return S.CLASSES[n.cls].xml


def features(n):
    out = [n]
    for fl, k in n.kids():
        if n.cls in ('Document', 'Folder') and fl.acc == 'feature':
            out += features(k)
    return out


def fields(n):
    k = 0
    for x in n.walk():
        for fl in S.CLASSES[x.cls].fields:
            v = x.f.get(fl.acc)
            if v is None or fl.attr or fl.kind in 'CATPc':
                continue
            k += len(v) if fl.kind in 'SV' else 1
    return k


def prefixes(n):
    out = set()
    for x in n.walk():
        t = xml(x)
        out.add(t.split(':')[0] if ':' in t else 'kml')
        for fl in S.CLASSES[x.cls].fields:
            if not fl.attr and not fl.group and fl.kind not in 'CATP' and fl.acc in x.f and ':' in fl.name:
                out.add(fl.name.split(':')[0])
    return out


def rd(data, cls):
    return gen.dump(gen.parsed(reader.read(data, cls)))


def case(w, rng, i):
    cls = rng.choice(ROOTS) if rng.random() < 0.5 else rng.choice(['Kml', 'Document', 'Folder', 'Placemark'])
    ids = [gen.g_id(rng) for _ in range(rng.choice([1, 3, 50]))]
    n = gen.parsed(gen.G(rng, gen.many(rng, [3, 15, 50, 120], (400,), 0.005), rng.choice([0.2, 0.4, 0.9]), idfn=lambda r: r.choice(ids)).node(cls))
    ctr = [0]
    api = rng.random() < 0.3
    text = gen.Writer(rng, shuffle=True).xml(n)
    ops = gen.api_ops(n, 'r', [], ctr, rng) if api else [['parse', 'r', text]]
    k0 = len(ops)
    alt0(n)
    nodes = pre(n)
    present = sorted({x.cls for x in nodes if x.cls != 'IconStyleIcon'})
    t = rng.choice([xml(S_) for S_ in nodes if S_.cls != 'IconStyleIcon']) if rng.random() < 0.6 else rng.choice(sorted(ABS))
    m = {a: rng.choice(['zz1', 'zz2', 'q', '', a, rng.choice(ids)]) for a in ids if rng.random() < 0.5}
    remap = [y for x in sorted(m.items()) for y in x]
    ops += [['dump', 'r'], ['childelements', 'r', '1'], ['childelements', 'r', '0'], ['findtype', 'r', t], ['mapids', 'r', '1'], ['mapids', 'r', '0'],
            ['rootfeature', 'r', 'f'], ['visit', 'r', 'pre'], ['visit', 'r', 'post'], ['stats', 'r'], ['findns', 'r'], ['dump', 'r'],
            ['counter', text]]
    root = n.f.get('feature') if n.cls == 'Kml' and 'feature' in n.f else (n if n.cls in S.GROUPS['Feature'] else None)
    if root:
        ops.append(['visitfeatures', 'f'])
    k1 = len(ops)
    if rng.random() < 0.5:
        ops += [['clearids', 'r'], ['mapids', 'r', '1'], ['dump', 'r']]
        tool = 'clear'
    else:
        ops += [['remapids', 'r'] + remap, ['dump', 'r']]
        tool = 'remap'
    o = w.do(ops)
    d0, ch, ch1, found, mi, mi0, rf, vpre, vpost, stats, ns, d1, cnt = o[k0:k0 + 13]
    names = [xml(x).encode() for x in nodes[1:]]
    w.eq(ch, [str(len(names)).encode()] + names, 'children:all', 'GetChildElements with recursion')
    direct = [xml(x).encode() for _, x in n.kids()]
    w.eq(ch1, [str(len(direct)).encode()] + direct, 'children:direct', 'GetChildElements without recursion')
    if t in ABS:
        want = [x for x in nodes[1:] if ABS[t](x.cls)]
    else:
        want = [x for x in nodes[1:] if (xml(x) == t or xml(x) in SUB.get(t, ())) and x.cls != 'IconStyleIcon']
    w.eq([rd(f, x.cls) if x.cls != 'Coordinates' else x.cls for f, x in zip(found, want)],
         [gen.dump(x) if x.cls != 'Coordinates' else x.cls for x in want], 'find:' + t, 'GetElementsById(%s)' % t)
    w.eq(len(found), len(want), 'findcount:' + t, 'number of elements found by GetElementsById(%s)' % t)
    w.count('found', len(want))
    # ids: last one wins, the earlier ones are reported as duplicates
    mp, dups = {}, []
    for x in nodes:
        a = x.f.get('id') if S.CLASSES[x.cls].is_object else None
        if a is not None:
            if a in mp:
                dups.append(mp[a])
            mp[a] = x
    for nm, mm, dd in (('with', mi, dups), ('without', mi0, [])):
        sep = mm.index(b'--')
        got = dict(zip([q.decode() for q in mm[0:sep:2]], mm[1:sep:2]))
        w.eq(sorted(got), sorted(mp), 'ids:' + nm, 'ids mapped by MapIds')
        for a in mp:
            w.eq(rd(got[a], mp[a].cls), gen.dump(mp[a]), 'idobject', 'object mapped to id %r' % a)
        w.eq([rd(q, x.cls) for q, x in zip(mm[sep + 1:], dd)] + [len(mm) - sep - 1], [gen.dump(x) for x in dd] + [len(dd)], 'dups:' + nm, 'duplicates')
    w.count('dups', len(dups))
    # features
    w.eq(rf[0], b'ok' if root else b'null', 'rootfeature', 'GetRootFeature')
    if root:
        fs = o[k1 - 1]
        want = features(root)
        w.eq([rd(q, x.cls) for q, x in zip(fs, want)] + [len(fs)], [gen.dump(x) for x in want] + [len(want)], 'features', 'VisitFeatureHierarchy')
    ok = lambda x: not x.cls.startswith(FOREIGN)
    if ok(n):
        w.eq(sorted(vpre), sorted(xml(x).encode() for x in vis(n, ok)), 'visit:pre', 'elements visited in preorder')
        w.eq(sorted(vpost), sorted(vpre), 'visit:post', 'elements visited in postorder')
        w.eq(vpre[0], xml(n).encode(), 'visit:first', 'preorder starts with the root')
        w.eq(vpost[-1], xml(n).encode(), 'visit:last', 'postorder ends with the root')
        order(w, vpre, n, ok)
    w.eq([int(q) for q in stats[:4]], [len(nodes), len(nodes), fields(n), len(nodes) - 1], 'stats', 'StatsSerializer begin, end, field and element counts')
    w.eq(sorted(set(ns[0::2]) - {b'kml'}), sorted(p.encode() for p in prefixes(n) - {'kml'}), 'namespaces', 'namespaces found')
    w.eq(d1, d0, 'readonly', 'a walker changed the document')
    want = {}
    for x in nodes:
        want[xml(x)] = want.get(xml(x), 0) + 1
    got = dict(zip([q.decode() for q in cnt[1::2]], [int(q) for q in cnt[2::2]]))
    if rng:
        for nm in sorted({xml(x) for x in nodes if x.cls not in ('IconStyleIcon', 'Icon')}):
            w.eq(got.get(nm), want[nm], 'counter:' + nm, 'ElementCounter count of ' + nm)
    if tool == 'clear':
        w.eq(o[k1 + 1], [b'--'], 'cleared', 'ids left after ClearIds')
        for x in nodes:
            if S.CLASSES[x.cls].is_object:
                x.f.pop('id', None)
    else:
        for a, x in mp.items():
            if a in m:
                x.f['id'] = m[a]
            else:
                del x.f['id']
        w.eq(o[k1][0], str(len([a for a in mp if a not in m])).encode(), 'remapcount', 'number of ids cleared by RemapIds')
    if True:
        exp = gen.dump(n)
        got = o[-1][0].decode('latin1')
        import re
        alt = lambda s: re.sub(r',0,[01]"', ',0,x"', s)     # the model has altitude 0 where none was written
        w.eq(alt(got), alt(exp), 'after:' + tool, 'document after %s' % tool)
    w.count('elements', len(nodes))
    w.seen(d0[0])
    w.sample({'class': cls, 'elements': len(nodes), 'find': t})


def order(w, names, n, ok):
    """The preorder visit sequence is a depth-first sequence of the tree, children in any order."""
    pos = [0]

    def match(x):
        if pos[0] >= len(names) or names[pos[0]] != xml(x).encode():
            return False
        pos[0] += 1
        kids = [k for _, k in x.kids() if ok(k)]
        while kids:
            for k in kids:
                p = pos[0]
                if match(k):
                    kids.remove(k)
                    break
                pos[0] = p
            else:
                return False
        return True
    if len(names) < 40:
        w.check(match(n) and pos[0] == len(names), 'visit:order', lambda: 'preorder sequence is not depth-first: %r' % names)
