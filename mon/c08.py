"""The indexes of a whole file: ids, shared styles, link parents and links are complete, exact and point into the document."""
import re
from . import gen, reader, schema as S
ID = 'C08'
RULE = ('random documents with repeated ids, shared styles in nested Documents, links and foreign subtrees holding decoy ids; each index of the '
        'parsed or imported file is compared with the text as an independent XML reader sees it; distinct by text')
CASES = {'quick': 12000, 'thorough': 100000}
MIN = {'checks': 60000, 'objects': 8000, 'overridden': 2000, 'shared': 2000, 'links': 5000, 'refused': 500, 'strict_refused': 500}
LP = {'PhotoOverlay', 'GroundOverlay', 'ScreenOverlay', 'ItemIcon', 'IconStyle', 'NetworkLink', 'Model'}
KNOWN = {S.CLASSES[c].xml: c for c in S.CLASSES}
HREFS = ['a.kml', 'b/c.kmz', '#s1', 'style.kml#s1', 'http://e.com/x.png', 'http://e.com', 'https://h:80/p/q?r=1#f', '../up.jpg', '/abs/file.dae', '',
         'x y.png', 'img.png?q=2', 'ftp://f/a#b/c', 'root://icons/p1', '日本.kml']
M = re.compile(rb' m="(\d+)"')


def marks(items):
    out = []
    for q in items:
        h = q[:q.index(b'>')] if b'>' in q else q
        m = M.search(h)
        out.append(int(m.group(1)) if m else None)
    return out


def relative(h):
    base = h.split('#', 1)[0]
    return bool(base) and '://' not in base


def case(w, rng, i):
    ids = [gen.g_id(rng) for _ in range(gen.many(rng, [1, 3, 10, 60], (200,), 0.002))]
    cls = rng.choice(['Kml', 'Document', 'Document', 'Folder', 'Placemark', 'Style', 'GxTour']) if rng.random() < 0.85 else rng.choice(sorted(LP) + ['Link', 'Icon', 'ListStyle', 'StyleMap', 'Region'])
    g = gen.G(rng, gen.many(rng, [5, 20, 60, 140], (400,), 0.001), rng.choice([0.25, 0.5]), idfn=lambda r: r.choice(ids))
    root = g.node(cls)
    nodes = list(root.walk())
    docs = [n for n in nodes if n.cls == 'Document']
    for d in docs:      # more shared styles, some with the same id as others
        for _ in range(rng.randrange(4)):
            g.left = 6
            s = g.node(rng.choice(['Style', 'StyleMap']))
            if rng.random() < 0.85:
                s.f['id'] = rng.choice(ids)
            else:
                s.f.pop('id', None)
            d.f.setdefault('styleselector', []).append(s)
    nodes = list(root.walk())
    for k, n in enumerate(nodes):
        if S.CLASSES[n.cls].is_object:
            n.uattrs['m'] = str(k)
        for fl in S.CLASSES[n.cls].fields:
            if fl.name in ('href', 'styleUrl', 'targetHref', 'schemaUrl') and fl.acc in n.f and rng.random() < 0.8:
                n.f[fl.acc] = rng.choice(HREFS)
    gen.parsed(root)

    def extra(n):
        if rng.random() > 0.08 or n.cls in ('Coordinates', 'Snippet', 'LinkSnippet', 'SimpleData'):
            return []
        return [['<foo><Style id="%s"><href>decoy.png</href></Style><Icon id="%s"/></foo>' % (rng.choice(ids), rng.choice(ids))]]
    text = gen.Writer(rng, rng.choice([0, 0.3]), shuffle=rng.random() < 0.7, extra=extra).xml(root)
    t = reader.tree(text)
    byid, shared, lparents, links, count, scount = {}, {}, [], [], {}, {}
    stack = []

    def go(e):
        c = KNOWN.get(e.tag)
        p = stack[-1].tag if stack else None
        if e.tag == 'foo':
            return
        if c and c != 'Coordinates':
            m = int(e.attrs['m']) if 'm' in e.attrs else None
            if m is not None and 'id' in e.attrs:
                byid[e.attrs['id']] = m
                count[e.attrs['id']] = count.get(e.attrs['id'], 0) + 1
            if c in LP:
                lparents.append(m)
        stack.append(e)
        for k in e.kids:
            go(k)
        stack.pop()
        if e.tag in ('href', 'styleUrl') or (e.tag == 'targetHref' and p == 'Alias'):
            links.append(e.text)
        if e.tag == 'SchemaData' and 'schemaUrl' in e.attrs and p:
            links.append(e.attrs['schemaUrl'])
        if e.tag in ('Style', 'StyleMap') and p == 'Document' and 'id' in e.attrs:
            shared[e.attrs['id']] = int(e.attrs['m'])
            scount[e.attrs['id']] = scount.get(e.attrs['id'], 0) + 1
    go(t)
    probe = sorted(set(ids)) + ['no such id', '']
    ops = [['kfparse', 'k', text], ['kfroot', 'k', 'r'], ['dump', 'r'], ['kfstyles', 'k'], ['kflinks', 'k'], ['kflinkptrs', 'k', 'r'],
           ['getlinks', text], ['getrellinks', text], ['getlinkparents', text], ['parse', 'q', text], ['dump', 'q']]
    k0 = len(ops)
    for q in probe:
        ops += [['kfobj', 'k', q, 'o'], ['ser', 'o', 'raw'], ['inside', 'r', 'o'], ['kfstyle', 'k', q, 's'], ['ser', 's', 'raw'], ['inside', 'r', 's']]
    o = w.do(ops)
    w.eq(o[0][0], b'ok', 'parse', 'CreateFromParse')
    w.eq(o[2], o[10], 'root', 'document of the file and of a plain parse')

    def ref(r, ser, ins, want, what):
        if want is None:
            w.eq(r[0], b'null', what + ':none', 'lookup of an id which no object has')
            return
        w.eq(r[0], b'ok', what + ':found', 'lookup of an id which an object has')
        w.eq(marks(ser)[0], want, what + ':last', 'object found for the id (position in the text)')
        w.eq(ins[0], b'1', what + ':identity', 'the object found is the one in the document')
    for k, q in enumerate(probe):
        a = o[k0 + 6 * k:k0 + 6 * k + 6]
        ref(a[0], a[1], a[2], byid.get(q), 'object')
        ref(a[3], a[4], a[5], shared.get(q), 'style')
    st = o[3]
    w.eq(dict(zip([x.decode() for x in st[0::2]], marks(st[1::2]))), shared, 'styles', 'shared style map')
    w.eq(marks(o[4]), lparents, 'linkparents', 'link parents of the file')
    w.eq(o[5], [str(len(lparents)).encode()] * 2, 'linkparents:identity', 'link parents which are part of the document, and all')
    w.eq([x.decode() for x in o[6]], ['1'] + links, 'links', 'GetLinks')
    w.eq([x.decode() for x in o[7]], ['1'] + [h for h in links if relative(h)], 'rellinks', 'GetRelativeLinks')
    w.eq((o[8][0], marks(o[8][1:])), (b'1', lparents), 'getlinkparents', 'GetLinkParents')
    w.count('objects', len(byid))
    w.count('overridden', sum(v - 1 for v in count.values()))
    w.count('shared', len(shared))
    w.count('links', len(links))
    # import of a document: last one in document order wins, strict import refuses duplicates
    ops = [['kfimport', 'x', 'q', 'strict'], ['dump', 'q'], ['kfimport', 'y', 'q', 'lax'], ['kfroot', 'y', 'z'], ['same', 'z', 'q'], ['kfstyles', 'y'], ['dump', 'q'], ['kflinks', 'y'], ['kflinkptrs', 'y', 'q']]
    n2 = len(ops)
    for q in probe:
        ops += [['kfobj', 'y', q, 'o'], ['ser', 'o', 'raw'], ['inside', 'q', 'o']]
    o2 = w.do(ops)
    dup = any(v > 1 for v in count.values())
    w.eq(o2[0][0], b'null' if dup else b'ok', 'import:strict', 'CreateFromImport with%s duplicate ids' % ('' if dup else 'out'))
    if dup:
        w.count('refused')
    w.eq(o2[2][0], b'ok', 'import:lax', 'CreateFromImportLax')
    w.eq((o2[1], o2[6]), (o[10], o[10]), 'import:unchanged', 'document after import')
    w.eq(o2[4][0], b'1', 'import:root', 'root of the imported file')
    own, parent = {}, {}
    for n in root.walk():
        for _, k in n.kids():
            parent[id(k)] = n
        if S.CLASSES[n.cls].is_object and 'id' in n.f:
            own[n.f['id']] = n
    ilp = sorted(int(n.uattrs['m']) for n in root.walk() if n.cls in LP)
    w.eq(sorted(marks(o2[7])), ilp, 'import:linkparents', 'link parents of an imported file')
    w.eq(o2[8], [str(len(ilp)).encode()] * 2, 'import:linkparents:identity', 'link parents which are part of the imported document, and all')
    for k, q in enumerate(probe):
        a = o2[n2 + 3 * k:n2 + 3 * k + 3]
        ref(a[0], a[1], a[2], int(own[q].uattrs['m']) if q in own else None, 'import')
    got = dict(zip([x.decode() for x in o2[5][0::2]], marks(o2[5][1::2])))
    for q, n in own.items():
        if n.cls in ('Style', 'StyleMap') and id(n) in parent and parent[id(n)].cls == 'Document':
            w.eq(got.pop(q, None), int(n.uattrs['m']), 'import:style', 'shared style of an imported document')
    w.check(all(q in shared for q in got), 'import:styles', lambda: 'shared styles which no Document holds: %r' % got)
    # the same observers on a parser of one's own, either or both strict
    si, ss = rng.random() < 0.5, rng.random() < 0.5
    dups = any(v > 1 for v in scount.values())
    o = w.do([['strictparse', text, '01'[si], '01'[ss]], ['kfenc', 'k'], ['kfser', 'k'], ['kfenc', 'k', 'UTF-8'], ['kfser', 'k'], ['kfserstream', 'k']])
    no = si and dup or ss and dups
    w.eq(o[0][0], b'null' if no else b'ok', 'observers', 'parse with strict ids %s (duplicates %s), strict styles %s (duplicates %s)' % (si, dup, ss, dups))
    if not no:
        n = 2 * int(o[0][1])
        w.eq(dict(zip([x.decode() for x in o[0][2:2 + n:2]], marks(o[0][3:2 + n:2]))), byid, 'observers:ids', 'ids found by the observer')
        w.eq(dict(zip([x.decode() for x in o[0][2 + n::2]], marks(o[0][3 + n::2]))), shared, 'observers:styles', 'shared styles found by the observer')
    else:
        w.count('strict_refused')
    for a, b, e in ((o[1], o[2], b'utf-8'), (o[3], o[4], b'UTF-8')):
        h = b'<?xml version="1.0" encoding="%s"?>\n' % e
        w.eq((a, b[0], b[1][:len(h)]), ([e, h], b'1', h), 'header', 'XML declaration of the file')
    w.eq((o[4][1][len(h):], o[5]), (o[2][1][len(h):], o[4]), 'body', 'the file but for its declaration, and as written to a stream')
    w.seen(text)
    w.sample({'root': cls, 'ids': len(byid), 'shared': len(shared), 'links': links[:5]})
