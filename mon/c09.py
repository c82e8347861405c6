"""Style resolution equals the reference model, terminates on any reference graph and changes nothing."""
import io
import zipfile
from . import edits, gen, reader, schema as S, styles
ID = 'C09'
RULE = ('random worlds of local and remote KML and KMZ files whose shared styles, style maps and features reference one another in chains, '
        'trees and cycles; every feature is resolved in both states; distinct by reference graph and result')
CASES = {'quick': 24000, 'thorough': 150000}
MIN = {'checks': 40000, 'resolved': 20000, 'nonempty': 8000, 'multi': 3000, 'remote': 1000, 'kmz': 300, 'bounded': 300, 'limited': 3000, 'deep': 50, 'live': 5000}
FEATS = ['Placemark', 'Folder', 'NetworkLink', 'GroundOverlay', 'ScreenOverlay', 'PhotoOverlay', 'GxTour', 'Document']


def mkfile(rng, g, url, names, urls, nstyles, feats=0):
    d = gen.Node('Document')
    ss = []
    for _ in range(nstyles):
        s = styles.gen_style(rng, g, rng.choice([0.2, 0.5])) if rng.random() < 0.55 else styles.gen_map(rng, g, 0.3, urls)
        if rng.random() < 0.93:
            s.f['id'] = rng.choice(names)
        ss.append(s)
    if ss:
        d.f['styleselector'] = ss
    fs = []
    for k in range(feats):
        f = gen.Node(rng.choice(FEATS))
        f.f['id'] = 'feature-%d' % k
        r = rng.random()
        if r < 0.85:
            f.f['styleurl'] = rng.choice(urls)
        if r > 0.45:
            s = styles.gen_style(rng, g, 0.4) if rng.random() < 0.6 else styles.gen_map(rng, g, 0.3, urls)
            f.f['styleselector'] = [s] if f.cls == 'Document' else s
        fs.append(f)
    if feats:
        d.f['feature'] = fs
    if rng.random() < 0.5:
        k = gen.Node('Kml')
        k.f['feature'] = d
        d = k
    gen.parsed(d)
    return styles.File(url, d), d, fs


def case(w, rng, i):
    names = ['s%d' % k for k in range(gen.many(rng, [1, 3, 6, 12], (40, 100), 0.01))]
    if rng.random() < 0.2:
        names = ['s0', 'S0', 's', 's00', 's0-x', 's0.'][:max(2, len(names))]
    g = gen.G(rng, 30, 0.3, no_ids=rng.random() < 0.6)
    net = rng.random() < 0.6
    base = 'http://h.com/a/main.kml'
    paths = ['b.kml', 'c/d.kml', '../e.kml', 'http://o.org/f.kml', 'missing.kml', 'z.kmz', 'z.kmz/in/i.kml', 'bad.kml', 'z.kmz/no.kml', 'http://o.org/', 'http://o.org']
    urls = ['#' + n for n in names for _ in range(4)] + ['', '#', '#nope', names[0], 'b.kml']
    local = list(urls)
    if net:
        urls += [p + '#' + n for p in paths for n in names[:3]]
    world = styles.World()
    f, d, feats = mkfile(rng, g, base, names, urls, rng.choice([0, 2, 5, 10]), rng.choice([1, 3, 6]))
    # a cycle or a long chain of style maps, often
    r = rng.random()
    dd = d.f['feature'] if d.cls == 'Kml' else d
    if r < 0.35:
        chain = rng.choice([1, 2, 4, 5, 6, 9])
        cyc = rng.random() < 0.4
        for k in range(chain):
            s = gen.Node('StyleMap')
            ps = []
            for key in (0, 1):
                p = gen.Node('Pair')
                p.f['key'] = key
                nxt = (k + 1) % chain if cyc else k + 1
                p.f['styleurl'] = '#c%d' % nxt
                ps.append(p)
            s.f['pair'] = ps
            s.f['id'] = 'c%d' % k
            dd.f.setdefault('styleselector', []).append(s)
        end = styles.gen_style(rng, g, 0.6)
        end.f['id'] = 'c%d' % chain
        dd.f['styleselector'].append(end)
        rng.choice(feats).f['styleurl'] = '#c0'
        f = styles.File(base, d)
    wr = gen.Writer(rng)
    ops = [['cachenew', 'kml', rng.choice(['1', '2', '100'])]]
    if net:
        # inside the files the same relative names are used, so that wrong bases show
        for u in ('http://h.com/a/b.kml', 'http://h.com/a/c/d.kml', 'http://h.com/e.kml', 'http://o.org/f.kml', 'http://h.com/a/c/b.kml', 'http://o.org/b.kml', 'http://h.com/b.kml'):
            rf, rd, _ = mkfile(rng, g, u, names, urls, rng.choice([1, 3, 6]))
            world.files[u] = rf
            ops.append(['net', u, wr.xml(rd)])
        ops.append(['net', 'http://h.com/a/bad.kml', '<kml><Document></kml>'])
        z, buf = {}, io.BytesIO()
        with zipfile.ZipFile(buf, 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as zf:
            for inner in ('doc.kml', 'in/i.kml', 'in/b.kml'):
                rf, rd, _ = mkfile(rng, g, 'http://h.com/a/z.kmz/' + inner, names, urls, rng.choice([1, 4]))
                z[inner] = rf
                zf.writestr(inner, wr.xml(rd))
        world.kmz['http://h.com/a/z.kmz'] = z
        ops.append(['net', 'http://h.com/a/z.kmz', buf.getvalue()])
    text = wr.xml(d)
    ops += [['kfcache', 'k', text, base] if net else ['kfparse', 'k', text], ['kfroot', 'k', 'r'], ['dump', 'r']]
    k0 = len(ops)
    todo = []
    for k, ft in enumerate(feats):
        ops.append(['kfobj', 'k', 'feature-%d' % k, 'f'])
        for st in (0, 1):
            ops += [['resolve', 'k', 'f', str(st), 'o'], ['dump', 'o'], ['ptrs', 'r', 'o']]
            sel = ft.f.get('styleselector')
            todo.append((len(ops) - 3, ft.f.get('styleurl', ''), None if ft.cls == 'Document' else sel, st))
        if ft.cls != 'Document' and rng.random() < 0.4:      # the same selector beside any styleUrl
            url, st = rng.choice([''] + urls), rng.randrange(2)
            sel = ft.f.get('styleselector')
            ops += [['cget', 'f', 'styleselector', 'sel'], ['resolve2', 'k', url, 'sel', str(st), 'o'], ['dump', 'o'], ['ptrs', 'r', 'o']]
            todo.append((len(ops) - 3, url, sel, st))
    lim = []
    for _ in range(3):
        url, st = rng.choice(['#c0'] if r < 0.35 and rng.random() < 0.5 else [x.f.get('styleurl', '') for x in feats] + urls), rng.randrange(2)
        n = rng.choice([None, 0, 1, 2, 3, 5, 6, 8, 12])
        ref = styles.resolve(world, f, url, None, st, net, styles.MAX if n is None else n)
        ops += [['merger', 'k', '-' if n is None else str(n), url, '', str(st), 'g'], ['dump', 'g']]
        lim.append((len(ops) - 2, url, st, n, ref))
    u = rng.choice(local)
    ops += [['resolvesel', 'k', u, 'm'], ['dump', 'm'], ['dump', 'r']]
    o = w.do(ops, timeout=30)
    w.eq(o[k0 - 3][0], b'ok', 'parse', 'file')
    exhausted = 0
    for at, url, sel, st in todo:
        ref = styles.resolve(world, f, url, sel, st, net)
        w.eq(o[at][0], b'ok', 'always', 'a style is always returned')
        w.eq(o[at + 2][2], b'0', 'fresh', 'the resolved style shares no element with the document')
        w.count('resolved')
        if ref.calls > styles.MAX:
            w.count('bounded')       # beyond the documented bound only termination is promised
            exhausted = 1
            continue
        want = gen.dump(styles.noids(ref.out))
        got = strip(o[at + 1][0])
        w.eq(got, want, 'style', 'styleUrl %r, %s, state %d' % (url, sel.cls if sel else 'no inline style', st))
        if ref.merged:
            w.count('nonempty')
        if ref.merged > 1:
            w.count('multi')
        if '#' in url and url.split('#')[0]:
            w.count('remote', ref.merged)
            if '.kmz' in url:
                w.count('kmz', ref.merged)
    for at, url, st, n, ref in lim:
        n = styles.MAX if n is None else n
        w.eq(o[at][1], b'1' if ref.calls > n else b'0', 'limit:depth', 'depth exhausted for %r, state %d, limit %d' % (url, st, n))
        if ref.calls <= n:
            w.eq(strip(o[at + 1][0]), gen.dump(styles.noids(ref.out)), 'limit', 'styleUrl %r, state %d, limit %d' % (url, st, n))
            w.count('limited')
            if ref.calls > styles.MAX:
                w.count('deep')
    # the selector form: both states, as a StyleMap without ids
    a, b = styles.resolve(world, f, u, None, 0, False), styles.resolve(world, f, u, None, 1, False)
    if a.calls <= styles.MAX and b.calls <= styles.MAX:
        m = gen.Node('StyleMap')
        m.f['pair'] = []
        for key, q in ((0, a), (1, b)):
            p = gen.Node('Pair')
            p.f['key'] = key
            p.f['styleselector'] = styles.noids(q.out)
            m.f['pair'].append(p)
        w.check(b' id=' not in o[-2][0] or b' id="' not in re.sub(rb'="(?:[^"\\\\]|\\\\.)*"', rb'=""', o[-2][0]).replace(b'targetid', b''), 'selector:ids', 'ids remain')
        w.eq(strip(o[-2][0]), gen.dump(m), 'selector', 'CreateResolvedStyleSelector(%r)' % u)
    w.eq(o[-1], o[k0 - 1], 'unchanged', 'document after resolution')
    if rng.random() < 0.5:
        live(w, rng, net, base, len(feats), urls)
    w.seen((text, [x[2] for x in ops if x[0] == 'net' and isinstance(x[2], str)]))
    w.sample({'features': len(feats), 'remote': net, 'styleUrls': [x[1] for x in todo[:4]]})


def live(w, rng, net, base, n, urls):
    """a style follows edits of the document in use: as resolved from the same content read afresh"""
    for _ in range(rng.choice([1, 2])):
        # the same question before and after, with nothing asked in between
        j, sj = rng.randrange(n), rng.choice('01')
        q = w.do([['kfobj', 'k', 'feature-%d' % j, 'fj'], ['resolve', 'k', 'fj', sj, 'o1'], ['dump', 'o1'], ['resolve', 'k', 'fj', sj, 'o2'], ['dump', 'o2'], ['ptrs', 'o1', 'o2']], timeout=30)
        w.eq((q[4], q[5][2]), (q[2], b'0'), 'twice', 'style of feature-%d asked for twice, and elements shared by the answers' % j)
        did = edits.edit(w, rng, 'r', rng.choice([2, 6, 12]), strings={'styleurl': urls})
        s = w.do([['ser', 'r', 'raw']])[0][0]
        ops = [['kfcache', 'k2', s, base] if net else ['kfparse', 'k2', s], ['resolve', 'k', 'fj', sj, 'oj'], ['dump', 'oj'], ['kfobj', 'k2', 'feature-%d' % j, 'fk'],
               ['resolve', 'k2', 'fk', sj, 'ok'], ['dump', 'ok']]
        k0 = len(ops)
        for k in range(n):
            for st in '01':
                for kf in ('k', 'k2'):
                    ops += [['kfobj', kf, 'feature-%d' % k, 'f'], ['resolve', kf, 'f', st, 'o'], ['dump', 'o']]
        o = w.do(ops, timeout=30)
        w.eq(o[2], o[5], 'live', 'style of feature-%d after %r' % (j, did[:5]))
        for k in range(2 * n):
            w.eq(o[k0 + 6 * k + 2][0], o[k0 + 6 * k + 5][0], 'live', 'style of feature-%d after %r' % (k // 2, did[:5]))
        w.count('live', 1 if did else 0)


import re
IDS = re.compile(rb' (?:target)?id="(?:[^"\\]|\\.)*"')


def strip(d):
    return IDS.sub(b'', d).decode('latin1')
