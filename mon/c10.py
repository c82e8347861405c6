"""Splitting styles out of features and inlining shared styles keep every feature's resolved style and everything else."""
import copy
import re
from . import gen, reader, schema as S, styles
from .c07 import norm
from .c09 import strip
ALT = re.compile(',[01]"')
ID = 'C10'
RULE = ('random documents with nested containers, shared styles, inline styles and style maps, ids, updates and foreign content; split and inlined '
        'output is read by an independent reader and compared with the expected tree, and each feature is resolved before and after; distinct by text')
CASES = {'quick': 32000, 'thorough': 120000}
MIN = {'checks': 30000, 'split': 1500, 'inlined': 1500, 'kept': 1500, 'resolved': 10000, 'in_update': 300}
FEAT = ['Placemark', 'Folder', 'NetworkLink', 'GroundOverlay', 'ScreenOverlay', 'PhotoOverlay', 'GxTour', 'Document']
REMOTE = ['b.kml#s0', 'http://h.com/x.kml#s1', '../e.kmz/doc.kml#s0', 'http://h.com/#s0', 'http://h.com#s0', 'b.kml']
PROBES = [
    ('inline-both', 'inline',
     '<Document><Style id="a"><LineStyle><color>ff00ff00</color></LineStyle></Style><Placemark id="f"><styleUrl>#a</styleUrl>'
     '<Style><LineStyle><width>4</width></LineStyle></Style></Placemark></Document>', b'color'),
    ('inline-pair', 'inline',
     '<Document><Style id="a"><LineStyle><color>ff00ff00</color></LineStyle></Style><Placemark id="f"><StyleMap><Pair><key>normal</key>'
     '<styleUrl>#a</styleUrl></Pair></StyleMap></Placemark></Document>', b'color'),
    ('inline-document', 'inline',
     '<Document id="f"><styleUrl>#a</styleUrl><Style id="a"><LineStyle><color>ff00ff00</color></LineStyle></Style></Document>', b'color'),
]


def features(n, upd=False, out=None, idx=None):
    """(feature, within Update) in text order."""
    out = [] if out is None else out
    if n.cls == 'Update':
        upd = True
    if n.cls in FEAT:
        out.append((n, upd))
    for _, k in n.kids():
        features(k, upd, out)
    return out


def gen_doc(rng, mode, names):
    g = gen.G(rng, gen.many(rng, [10, 30, 70, 150], (400,), 0.005), rng.choice([0.15, 0.3]), no_ids=rng.random() < 0.5,
              strfn=lambda r: r.choice(['a', 'x y', '<b>&', 'é']))
    root = g.node(rng.choice(['Document', 'Document', 'Kml', 'Kml', 'Folder']))
    for n in list(root.walk()):
        if n.cls in ('Folder', 'Document'):
            fs = n.f.setdefault('feature', [])
            for _ in range(rng.randrange(4) if rng.random() > 0.002 else 600):
                g.left = rng.choice([2, 10])
                fs.append(g.node(rng.choice(FEAT)))
        if n.cls == 'Kml' and 'feature' not in n.f:
            g.left = 30
            n.f['feature'] = g.node('Document')
    # ids of other objects must not be taken for styles
    for n in root.walk():
        if 'id' in n.f and n.cls in ('Style', 'StyleMap'):
            del n.f['id']
    return g, root


def case(w, rng, i):
    if i < len(PROBES):
        return probe(w, *PROBES[i])
    mode = rng.choice(['split', 'inline'])
    names = ['s%d' % k for k in range(gen.many(rng, [1, 3, 6], (40,), 0.01))]
    if rng.random() < 0.2:
        names = ['s0', 'S0', 's', 's00', 's0-x', 's0.'][:max(2, len(names))]
    local = ['#' + n for n in names]
    odd = ['', '#', '#nope', names[0]]
    g, root = gen_doc(rng, mode, names)
    feats = features(root)
    first = True
    collide = False
    for f, upd in feats:
        f.f.pop('styleselector', None)
        f.f.pop('styleurl', None)
        if f.cls == 'Document':
            ss = []
            for _ in range(gen.many(rng, [0, 1, 3, 6], (30, 80), 0.01) if not upd else rng.randrange(2)):
                if rng.random() < 0.6:
                    s = styles.gen_style(rng, g, rng.choice([0.2, 0.5]))
                else:
                    s = styles.gen_map(rng, g, 0.3, local * 2 + odd + (REMOTE if mode == 'split' else []))
                if rng.random() < 0.9:
                    s.f['id'] = rng.choice(names) if not upd else 'u%d' % rng.randrange(3)
                    if mode == 'split' and first and rng.random() < 0.03:
                        s.f['id'] = rng.choice(['_0', '_1', '_3'])
                        collide = True
                ss.append(s)
            first = first and upd
            if ss:
                f.f['styleselector'] = ss
            if mode == 'split' and rng.random() < 0.3:
                f.f['styleurl'] = rng.choice(local + odd)
        else:
            r = rng.random()
            if mode == 'split':
                if r < 0.65:
                    f.f['styleselector'] = styles.gen_style(rng, g, 0.3) if rng.random() < 0.6 else styles.gen_map(rng, g, 0.3, local + odd + REMOTE)
                    if rng.random() < 0.15:
                        f.f['styleselector'].f['id'] = rng.choice(['in1', 'in2'])
                if r > 0.5:
                    f.f['styleurl'] = rng.choice(local + odd + REMOTE)
            else:
                if r < 0.75:
                    f.f['styleurl'] = rng.choice(local * 3 + odd + REMOTE)
                elif r < 0.9:
                    f.f['styleselector'] = styles.gen_style(rng, g, 0.3)
    for f, upd in feats:
        ss = f.f.get('styleselector', [])
        for s in (ss if isinstance(ss, list) else [ss]):
            for n in s.walk():
                n.f.pop('targetid', None)
    order = [f for f, _ in feats]
    for k, f in enumerate(order):
        f.f['id'] = 'feature-%d' % k
    for n in root.walk():
        if n.cls not in FEAT and 'id' in n.f and (n.f['id'].startswith('feature-') or n.cls in ('Style', 'StyleMap') and n.f['id'] in ()):
            del n.f['id']
    gen.parsed(root)
    ctr = [0]

    def extra(n):
        if rng.random() > 0.1 or n.cls in ('Coordinates', 'Snippet', 'LinkSnippet', 'SimpleData'):
            return []
        ctr[0] += 1
        n.unknown.append('U' + repr(reader.tree('<foo k="%d"><Style id="s0"/></foo>' % ctr[0]).key(strip=False)))
        return [['<foo k="%d"><Style id="s0"/></foo>' % ctr[0]]]
    text = gen.Writer(rng, extra=extra if rng.random() < 0.4 else None).xml(root)
    ops = [['kfparse', 'k0', text], ['kfroot', 'k0', 'r0'],
           ['splitstyles' if mode == 'split' else 'inlinestyles', 'r1', text], ['ser', 'r1', 'raw'], ['kfimport', 'k1', 'r1', 'lax']]
    live = [k for k, (f, upd) in enumerate(feats) if not upd]
    rng.shuffle(live)
    live = live[:12]
    at = {}
    for k in live:
        for st in (0, 1):
            at[k, st] = len(ops)
            for q in ('0', '1'):
                ops += [['kfobj', 'k' + q, 'feature-%d' % k, 'f'], ['resolve', 'k' + q, 'f', str(st), 's'], ['dump', 's']]
    o = w.do(ops)
    w.eq([o[0][0], o[2][0], o[4][0]], [b'ok'] * 3, 'accept', 'parse, %s, import' % mode)
    w.eq(o[2][1], b'', 'errors', 'error text of an accepted document')
    got = reader.read(o[3][0], tstrip=True, extras=True)
    exp = copy.deepcopy(root)
    for n in exp.walk():
        if n.cls in ('Snippet', 'LinkSnippet', 'SimpleData') and 'text' in n.f:
            n.f['text'] = n.f['text'].strip()
    ef = features(exp)
    gf = features(got)
    w.eq([f.f.get('id') for f, _ in gf], [f.f.get('id') for f, _ in ef], mode + ':features', 'features of the output')
    if mode == 'split':
        split(w, exp, ef, gf, collide)
        skip = set()
    else:
        skip = inline(w, exp, ef, gf)
    w.eq(canon(got), canon(exp), mode + ':tree', 'document after %s' % mode)
    for k in live:
        if k in skip:
            continue
        for st in (0, 1):
            a = at[k, st]
            w.eq(strip(o[a + 5][0]), strip(o[a + 2][0]), mode + ':resolved', 'resolved style of feature-%d (%s) state %d' % (k, order[k].cls, st))
            w.count('resolved')
    w.count('in_update', sum(u for _, u in feats))
    w.seen(text)
    w.sample({'mode': mode, 'text': text[:400]})


def canon(n):
    """What survives serialization: numbers to 15 digits, coordinates with an altitude."""
    return norm(ALT.sub(',1"', gen.dump(n)).encode('utf-8', 'surrogateescape'))


def split(w, exp, ef, gf, collide):
    home = None
    used = {}
    for (f, upd), (g, _) in zip(ef, gf):
        for s in (f.f.get('styleselector', []) if f.cls == 'Document' else []):
            if 'id' in s.f and not upd:
                used[s.f['id']] = 1
    made = []
    for (f, upd), (g, _) in zip(ef, gf):
        if upd:
            continue
        if f.cls == 'Document':
            home = home or f
            continue
        s = f.f.get('styleselector')
        if s is None or 'styleurl' in f.f or home is None:
            w.count('kept')
            continue
        url = g.f.get('styleurl', '')
        if 'styleurl' not in g.f:
            w.check(collide, 'split:left', 'an inline style was not split though no id collides (%s)' % f.f['id'])
            continue
        w.check('styleselector' not in g.f and url[:1] == '#' and url[1:] not in used, 'split:reference',
                'feature %s references %r after the split' % (f.f['id'], url))
        used[url[1:]] = 1
        del f.f['styleselector']
        f.f['styleurl'] = url
        s.f['id'] = url[1:]
        made.append(s)
        w.count('split')
    if home is not None and made:
        home.f['styleselector'] = home.f.get('styleselector', []) + made


def inline(w, exp, ef, gf):
    shared = {}
    bounded = set()
    num = {id(f): k for k, (f, _) in enumerate(ef)}

    class F(object):
        url = 'x'
    F.shared = shared

    def go(n, upd):
        if n.cls == 'Update':
            upd = True
        if n.cls in FEAT and not upd and n.cls != 'Document' and 'styleurl' in n.f:
            u = n.f['styleurl']
            if u[:1] == '#' and u[1:] in shared:
                a, b = (styles.resolve(styles.World(), F, u, None, st, False) for st in (0, 1))
                m = gen.Node('StyleMap')
                m.f['pair'] = []
                for key, q in ((0, a), (1, b)):
                    p = gen.Node('Pair')
                    p.f['key'] = key
                    p.f['styleselector'] = styles.noids(q.out)
                    m.f['pair'].append(p)
                if a.calls > styles.MAX or b.calls > styles.MAX:
                    bounded.add(num[id(n)])
                    g = gf[num[id(n)]][0]
                    m = g.f.get('styleselector')
                    w.count('bounded')
                elif later(u):
                    bounded.add(num[id(n)])
                del n.f['styleurl']
                n.f['styleselector'] = m
                w.count('inlined')
            else:
                w.count('kept')
                if u[:1] == '#':
                    bounded.add(num[id(n)])     # a shared style which comes later in the text
        if n.cls == 'Document' and not upd:
            keep = []
            for s in n.f.get('styleselector', []):
                if 'id' in s.f:
                    shared[s.f['id']] = s
                else:
                    keep.append(s)
            if keep:
                n.f['styleselector'] = keep
            else:
                n.f.pop('styleselector', None)
        for _, k in n.kids():
            go(k, upd)
    allstyles = {}
    for f, upd in ef:
        if f.cls == 'Document' and not upd:
            for s in f.f.get('styleselector', []):
                if 'id' in s.f:
                    allstyles.setdefault(s.f['id'], []).append(id(s))

    def later(u, depth=0):
        """Does following u meet a style which comes later in the text, or is redefined there?"""
        fr = u[1:]
        if fr not in allstyles:
            return False
        if fr not in shared or id(shared[fr]) != allstyles[fr][-1]:
            return True
        if depth > 6:
            return True
        for n in shared[fr].walk():
            if n.cls == 'Pair' and later(n.f.get('styleurl', ''), depth + 1):
                return True
        return False
    go(exp, False)
    return bounded


def probe(w, key, mode, text, want):
    o = w.do([['kfparse', 'k0', text], ['kfobj', 'k0', 'f', 'f'], ['resolve', 'k0', 'f', '0', 's'], ['dump', 's'],
              ['inlinestyles', 'r', text], ['kfimport', 'k1', 'r', 'lax'], ['kfobj', 'k1', 'f', 'f'], ['resolve', 'k1', 'f', '0', 's'], ['dump', 's']])
    w.eq(strip(o[8][0]), strip(o[3][0]), 'probe:' + key, 'resolved style before and after InlineStyles of ' + text)
