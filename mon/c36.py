"""The Python bindings: every class, field, cast and function of theirs does what the library does, and no handle dangles or leaks."""
import os
import re
import zipfile
from . import build as cbuild, c03, c15, c19, c26, c27, c33, c35, gen, pybuild, reader, schema as S
ID = 'C36'
RULE = ('random models built, read, edited, written, cloned, cast and released through the Python modules built by SWIG from the tree; handles to parts kept while their documents go; '
        'functions of kmlbase and kmlengine on random arguments; calls repeated five times measuring what they keep; distinct by model, history or arguments')
CASES = {'quick': 27000, 'thorough': 300000}
MIN = {'checks': 300000, 'models': 4500, 'documents': 4500, 'histories': 2700, 'lives': 2400, 'casts': 1600, 'functions': 3500, 'balances': 1000}
TIMEOUT = 90
ENV = {}
WRAPPER = []
# not wrapped
NOCLASS = {'AtomCategory', 'AtomContent', 'AtomEntry', 'AtomFeed', 'GxSimpleArrayData', 'GxTrack', 'GxMultiTrack', 'Url', 'GxSimpleArrayField'} | {c for c in S.CLASSES if c.startswith('Xal')}
NOFIELD = {'xaladdressdetails', 'gx_simplearraydata', 'gx_x', 'gx_y', 'gx_w', 'gx_h', 'maxsnippetlines', 'gx_simplearrayfield'}
CL = sorted(set(S.CLASSES) - NOCLASS)
ASSUMPTIONS = ['text is any Unicode string without NUL: the wrappers take str only', 'xAL, gx:Track, Atom feeds and a few fields are not wrapped']


def serve():
    d = pybuild.pybuild()
    ENV.update({'LD_PRELOAD': pybuild.runtime(), 'PYDRIVER': '%s:%s' % (cbuild.VERIF, d), 'PYTHONMALLOC': 'pymalloc', 'PYTHONDONTWRITEBYTECODE': '1'})
    WRAPPER[:] = [pybuild.PYTHON]
    return os.path.join(cbuild.HARNESS, 'pydriver.py')


def prune(n, text=False):
    """What of a model the bindings show; text keeps elements which they do not wrap, without content."""
    for x in list(n.walk()):
        for fl in S.CLASSES[x.cls].fields:
            v = x.f.get(fl.acc)
            if v is None:
                continue
            if x.cls in NOCLASS or fl.acc in NOFIELD:
                del x.f[fl.acc]
            elif fl.kind == 'C' and v.cls in NOCLASS and not text:
                del x.f[fl.acc]
            elif fl.kind == 'A' and not text:
                v = [y for y in v if y.cls not in NOCLASS]
                if v:
                    x.f[fl.acc] = v
                else:
                    del x.f[fl.acc]
    return n


def model(rng, cls=None, dens=None):
    cls = cls or (rng.choice(CL) if rng.random() < 0.6 else rng.choice(['Kml', 'Document', 'Folder', 'Placemark']))
    return prune(gen.G(rng, rng.choice([3, 10, 30, 60]), dens or rng.choice([0.15, 0.3, 0.6, 0.9])).node(cls))


def text(o):
    return o.decode('utf-8', 'surrogateescape')


def ok(w, ops, o):
    for q, r in zip(ops, o):
        w.check(not (r and r[0] == b'!exc'), 'exception:' + q[0], lambda: '%r raises %r' % (q, r))


def do(w, ops):
    o = w.do(ops)
    ok(w, ops, o)
    return o


def case(w, rng, i):
    if i < 8:
        constants(w)
    r = rng.random()
    if r < 0.25:
        built(w, rng)
    elif r < 0.5:
        parsed(w, rng)
    elif r < 0.63:
        history(w, rng, i)
    elif r < 0.76:
        life(w, rng)
    elif r < 0.84:
        casts(w, rng, i)
    else:
        functions(w, rng)
    if i % 23 == 0 and w.ops:
        c35.balance(w, [o for o in w.ops if o[0] != 'reset'], 'python')


# ---- documents -------------------------------------------------------------
def built(w, rng):
    n = model(rng)
    gen.parsed(n)
    ops = gen.api_ops(n, 'r', [], [0], rng)
    b = len(ops)
    ops += [['dump', 'r'], ['ser', 'r', 'raw'], ['ser', 'r', 'pretty'], ['clone', 'r', 'c'], ['dump', 'c'], ['drop', 'r'], ['gc'], ['dump', 'c'], ['ser', 'c', 'raw']]
    o = do(w, ops)
    w.eq(o[b][0].decode('latin1'), gen.dump(n), 'built', 'values set through Python')
    w.count('models')
    copy = gen.dump(n)
    c03.alt0(n)
    exp = gen.dump(n)
    c03.check_out(w, 'raw', o[b + 1][0], n.cls, exp, False)
    w.eq(o[b + 4][0].decode('latin1').replace(' text=""', ''), copy.replace(' text=""', ''), 'clone', 'the clone')      # empty text is no text
    w.eq(o[b + 7][0], o[b + 4][0], 'clonelife', 'the clone after its original is gone')
    if ' text=""' not in copy:
        w.eq(o[b + 8][0], o[b + 1][0], 'cloneser', 'the clone serialized')
    c03.strip_text(n)
    c03.check_out(w, 'pretty', o[b + 2][0], n.cls, gen.dump(n), True)
    w.seen(exp)


def ids(n):
    out = {}
    for x in n.walk():
        if S.CLASSES[x.cls].is_object and x.f.get('id') is not None:
            out.setdefault(x.f['id'], []).append(x)
    return out


def parsed(w, rng):
    cls = rng.choice(['Kml', 'Kml', 'Document', 'Folder', 'Placemark', rng.choice(sorted(set(S.CLASSES) - {'IconStyleIcon', 'Coordinates'}))])
    n = gen.parsed(gen.G(rng, rng.choice([3, 10, 30, 60]), rng.choice([0.15, 0.3, 0.6])).node(cls))
    wr = gen.Writer(rng, noise=rng.choice([0, 0.2]), shuffle=rng.random() < 0.5)
    t = wr.doc(n) if rng.random() < 0.7 else wr.xml(n)
    every = ids(n)
    shared = {}
    for x in n.walk():
        if x.cls == 'Document':
            for y in x.f.get('styleselector') or []:
                if y.f.get('id') is not None:
                    shared.setdefault(y.f['id'], []).append(y)
    prune(n, True)
    for x in n.walk():
        x.xm = {}
    exp = gen.dump(n)
    one = [k for k in sorted(every) if len(every[k]) == 1 and every[k][0].cls not in NOCLASS][:3]
    st = [k for k in sorted(shared) if len(every[k]) == 1][:2]
    ops = [['parse', 'p', t], ['dump', 'p'], ['kfparse', 'k', t], ['kfroot', 'k', 'q'], ['dump', 'q'], ['kfser', 'k'], ['kfid', 'k', 'no such', 'x'], ['rootfeature', 'q', 'f']]
    at = len(ops)
    for k in one:
        ops += [['kfid', 'k', k, 'i'], ['dump', 'i']]
    for k in st:
        ops += [['kfstyle', 'k', k, 'i'], ['dump', 'i']]
    b = len(ops)
    ops += [['drop', 'k'], ['gc'], ['dump', 'q'], ['kfimport', 'k2', 'q'], ['drop', 'q'], ['gc'], ['kfroot', 'k2', 'z'], ['dump', 'z'], ['kfser', 'k2']]
    bad = t[:rng.randrange(max(1, len(t) - 1))]
    ops += [['kfparse', 'e', bad], ['parse', 'e', bad]]
    o = w.do(ops)
    w.eq(o[1][0].decode('latin1'), exp, 'read', 'values of %s read through Python' % t[:600])
    w.eq(o[2], [b'ok', b''], 'kmlfile', t[:600])
    w.eq(o[4][0], o[1][0], 'root', 'the root of a KmlFile')
    w.eq(o[5][0], b'1', 'fileser', t[:600])
    w.eq(o[6], [b'null'], 'noid', 'an id which is not there')
    for j, k in enumerate(one + st):
        e = gen.dump(every[k][0])
        w.eq(o[at + 2 * j], [b'ok'], 'byid', 'object %r of %s' % (k, t[:600]))
        w.eq(o[at + 2 * j + 1][0].decode('latin1'), e, 'byid', 'object %r' % k)
    f = n.f.get('feature') if cls == 'Kml' else n if cls in S.GROUPS['Feature'] else None
    w.eq(o[7], [b'ok' if f else b'null'], 'rootfeature', 'the root feature of %s' % t[:600])
    w.eq(o[b + 2][0], o[1][0], 'rootlife', 'the root after its file is gone')
    if all(len(v) == 1 for v in every.values()):
        w.eq(o[b + 7][0], o[1][0], 'import', 'the root of an imported file')
        w.eq(o[b + 8], o[5], 'importser', 'the imported file as text')
    else:
        w.eq(o[b + 3], [b'null'], 'importdup', 'the same id twice')
    e = o[-2]
    w.check(e[0] == b'null' and len(e) == 2 and e[1], 'errors', lambda: 'errors of %r: %r' % (bad, e))
    w.eq(o[-1], [b'null'], 'reject', bad)
    w.count('documents')
    w.seen(t)
    w.sample({'text': t[:200]})


# ---- fields ----------------------------------------------------------------
def history(w, rng, i):
    """Accessor calls on one element, after each its state."""
    cls = CL[(i // 8) % len(CL)]
    n = gen.Node(cls)
    g = gen.G(rng, 6, 0.4)
    fs = [f for f in S.CLASSES[cls].fields if f.acc not in NOFIELD and f.kind not in 'SV']
    if not fs:
        return
    ops, exp = [[rng.choice(['newel', 'newid']), 'r', cls]], [None]
    if ops[0][0] == 'newid':
        ops += [['cast', 'r', cls, 'r']]
        exp += [['ok']]

    def q(o, e):
        ops.append(o)
        exp.append(e)
    ctr = [0]
    q(['dump', 'r'], ['(%s)' % cls])
    for f in fs:
        if f.kind in 'sTbdice':
            q(['get', 'r', f.acc], [c26.shown(f, c26.default(cls, f))])
            q(['has', 'r', f.acc], ['0'])
        elif f.kind == 'C':
            q(['cget', 'r', f.acc, 'x'], ['null'])
            q(['has', 'r', f.acc], ['0'])
        elif f.kind == 'A':
            q(['size', 'r', f.acc], ['0'])
    for _ in range(rng.choice([3, 8, 15])):
        f = rng.choice(fs)
        a = f.acc
        if f.kind in 'sTbdice':
            if rng.random() < 0.3:
                q(['clear', 'r', a], [])
                n.f.pop(a, None)
                q(['has', 'r', a], ['0'])
                q(['get', 'r', a], [c26.shown(f, c26.default(cls, f))])
            else:
                v = g.value(f, 0)
                n.f[a] = v
                q(['set', 'r', a, c26.enc(f, v)], [])
                q(['has', 'r', a], ['1'])
                q(['get', 'r', a], [c26.shown(f, v)])
        elif f.kind == 'P':
            p = (gen.g_double(rng), gen.g_double(rng), rng.choice([None, gen.g_double(rng)]))
            n.f.setdefault(a, []).append(p)
            q(['set', 'r', a, ','.join(repr(y) for y in p if y is not None)], [])
        elif f.kind == 'E':
            q(['clearstate', 'r'], [])
            n.f[a] = g.value(f, 0)
            for v in n.f[a]:
                q(['set', 'r', a, str(v)], [])
        elif f.kind == 'C' and rng.random() < 0.3:
            if rng.random() < 0.5:
                q(['clear', 'r', a], [])
            else:
                q(['cset', 'r', a, ''], [])     # None
            n.f.pop(a, None)
            q(['has', 'r', a], ['0'])
        else:
            ms = [m for m in S.members(f.arg) if m not in NOCLASS]
            if not ms:
                continue
            g.left = 6
            c = prune(g.node(rng.choice(ms)))
            for o in gen.api_ops(c, 'c', [], ctr, rng):
                q(o, None)
            q(['cset', 'r', a, 'c'], [])
            if f.kind == 'C':
                n.f[a] = c
                q(['cget', 'r', a, 'd'], ['ok'])
            else:
                n.f.setdefault(a, []).append(c)
                q(['size', 'r', a], [str(len(n.f[a]))])
                q(['cget', 'r', a, 'd', str(len(n.f[a]) - 1)], ['ok'])
            q(['dump', 'd'], [gen.dump(c)])
            if rng.random() < 0.5:
                # a child has one parent: it is refused elsewhere
                q(['newel', 'e', cls], None)
                q(['cset', 'e', a, 'd'], [])
                q(['dump', 'e'], ['(%s)' % cls])
            q(['drop', 'c'], [])
        q(['dump', 'r'], [gen.dump(n)])
    o = do(w, ops)
    for k, (e, r) in enumerate(zip(exp, o)):
        if e is not None:
            w.eq([x.decode('latin1') if ops[k][0] == 'dump' else text(x) for x in r], e, 'field:' + ops[k][0], 'after %r on %s' % (ops[max(0, k - 2):k + 1], cls))
    w.count('histories')
    w.seen(repr(ops))


# ---- lifetimes -------------------------------------------------------------
def life(w, rng):
    """Handles to parts of a document outlive it."""
    n = model(rng, rng.choice(['Kml', 'Document', 'Folder', 'Placemark', 'Style', 'Folder', 'NetworkLinkControl', 'GxTour']), 0.6)
    gen.parsed(n)
    if rng.random() < 0.5:
        ops = gen.api_ops(n, 'r', [], [0], rng)
    else:
        ops = [['parse', 'r', gen.Writer(rng).xml(n)]]
    held = []

    def go(x, r, depth):
        for f in S.CLASSES[x.cls].fields:
            v = x.f.get(f.acc)
            if v is None or f.kind not in 'CA':
                continue
            for k, y in enumerate([v] if f.kind == 'C' else v):
                if rng.random() < (0.8 if depth < 2 else 0.5):
                    d = 'h%d' % len(held)
                    ops.append(['cget', r, f.acc, d] + ([str(k)] if f.kind == 'A' else []))
                    held.append((d, y, f, x))
                    go(y, d, depth + 1)
    go(n, 'r', 0)
    exp = {}
    if not held:
        return
    colours = []
    for d, y, f, x in held:
        for g in S.CLASSES[y.cls].fields:
            if g.kind == 'c' and g.acc in y.f:
                ops.append(['keep', d, g.acc, 'c%d' % len(colours)])
                colours.append(y.f[g.acc])
    ops += [['drop', 'r'], ['gc']]
    order = list(held)
    rng.shuffle(order)
    for k, (d, y, f, x) in enumerate(order):
        exp[len(ops)] = [gen.dump(y)]
        ops.append(['dump', d])
        if rng.random() < 0.3:
            ops += [['drop', d], ['gc']]
    for k, v in enumerate(colours):
        exp[len(ops)] = ['%08x' % v]
        ops.append(['kept', 'c%d' % k])
    o = do(w, ops)
    for k, e in exp.items():
        w.eq([x.decode('latin1') for x in o[k]], e, 'life:' + ops[k][0], 'after the document is gone: %r' % (ops[max(0, k - 2):k + 1],))
    w.count('lives')
    w.seen(repr(ops))


# ---- kinds -----------------------------------------------------------------
def casts(w, rng, i):
    cls = CL[(i // 8) % len(CL)]
    ops = [[rng.choice(['newel', 'newid']), 'x', cls], ['casts', 'x'], ['cast', '', cls, 'y']]
    o = do(w, ops)
    k = c33.kinds(cls)
    w.eq(o[1][0].decode(), cls, 'type', cls)
    got = set(o[1][1].decode().split()) - {'Element'}
    w.eq(sorted(got), sorted(k), 'cast', 'casts of %s which succeed' % cls)
    isa = set(o[1][2].decode().split())
    w.check(k - {'Element'} <= isa, 'isa', lambda: '%s IsA only %r' % (cls, sorted(isa)))
    w.eq(o[2], [b'null'], 'castnone', 'As%s(None)' % cls)
    w.count('casts')
    w.seen((cls, ops[0][0]))


PRE = {'altitudeMode': 'ALTITUDEMODE', 'colorMode': 'COLORMODE', 'displayMode': 'DISPLAYMODE', 'gridOrigin': 'GRIDORIGIN', 'state': 'ITEMICONSTATE', 'listItemType': 'LISTITEMTYPE',
       'refreshMode': 'REFRESHMODE', 'shape': 'SHAPE', 'key': 'STYLESTATE', 'units': 'UNITS', 'viewRefreshMode': 'VIEWREFRESHMODE', 'gx:altitudeMode': 'GX_ALTITUDEMODE',
       'gx:flyToMode': 'GX_FLYTOMODE', 'gx:playMode': 'GX_PLAYMODE'}


def constants(w):
    o = do(w, [['names'], ['exposed'], ['version']])
    n = dict(x.decode().split('=') for x in o[0])
    for e, vs in S.ENUMS.items():
        for k, v in enumerate(vs):
            w.eq(n.get('%s_%s' % (PRE[e], v.upper())), str(k), 'enum:' + e, 'the constant of %s' % v)
    got = set(o[1][0].decode().split())
    need = set(open(os.path.join(os.path.dirname(__file__), 'pyapi.txt')).read().split())
    w.check(need <= got, 'missing', lambda: 'no longer there: %s' % sorted(need - got)[:20])
    w.check(re.match(rb'\d+\.\d+\.\d+\Z', o[2][0]), 'version', repr(o[2]))
    ts = sorted((int(v), k[5:]) for k, v in n.items() if k.startswith('Type_'))
    w.eq(len(set(t[0] for t in ts)), len(ts), 'types', 'distinct type numbers')
    o = do(w, [['typename', str(t)] for t, _ in ts])
    for (t, k), r in zip(ts, o):
        if k in S.CLASSES:
            w.eq(r[0].decode(), 'Type_' + k, 'typename', 'name of type %s' % k)
    w.count('constants')


# ---- functions -------------------------------------------------------------
def functions(w, rng):
    w.count('functions')
    r = rng.random()
    if r < 0.2:
        pts = []
        t = c19.feature(rng, pts)
        o = do(w, [['parse', 'a', t], ['bounds', 'a'], ['latlon', 'a']])
        if 'gx:' in t and o[0] != [b'ok']:
            return
        b = c19.bnd(pts) if pts else None
        w.eq(o[1], [b'1'] + [gen.g17(x).encode() for x in b] if pts else [b'0'], 'bounds', t[:600]) if not pts or 0.0 not in b else \
            w.eq([o[1][0]] + [float(x) for x in o[1][1:]], [b'1'] + b, 'bounds', t[:600])
        w.eq([o[2][0]] + [float(x) for x in o[2][1:]], [b'1', (b[0] + b[1]) / 2, (b[2] + b[3]) / 2] if pts else [b'0'], 'latlon', t[:600])
        w.seen(t)
    elif r < 0.35:
        boxes(w, rng)
    elif r < 0.5:
        v, u = c27.u32(rng), c27.u32(rng)
        a, b, g, rr = v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255
        o = do(w, [['color', str(v), str(u)]])[0]
        t = '%d %d %d %d %d %d' % (v, c27.swap(v), a, b, g, rr)
        w.eq([x.decode() for x in o], [t] * 8 + ['%08x' % v, '%08x' % c27.swap(v), '1', str(int(u == v)), '4294967295 4294967295 255 255 255 255'], 'colour', '%08x over %08x' % (v, u))
        w.seen((v, u))
    elif r < 0.62:
        import datetime
        t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=rng.randrange(-2 * 10 ** 9, 4 * 10 ** 9))
        s = t.strftime('%Y-%m-%dT%H:%M:%SZ')
        k = str(int((t - datetime.datetime(1970, 1, 1)).total_seconds()))
        o = do(w, [['datetime', s], ['datetime', 'x' + s]])
        w.eq([text(x) for x in o[0]], [k, k, t.strftime('%H:%M:%S'), t.strftime('%Y-%m-%d'), s], 'time', s)
        w.eq(o[1][1:], [b'null'], 'nottime', 'x' + s)
        w.seen(s)
    elif r < 0.74:
        base = c15.full(c15.absolute, rng)
        s, a, p, q, f = c15.split(base)
        m = re.match(r'^(\[.*\]|[^:]*)(:(.*))?$', a.split('@')[-1])
        o = do(w, [['spliturl', base]])
        w.eq([text(x) for x in o[0]], ['1', s, m.group(1).strip('[]'), m.group(3) or '', p[1:] if p.startswith('/') else p, q or '', f or ''], 'spliturl', base)
        z = 'http://h.com/' + rng.choice(['', 'a/', 'b/c/']) + rng.choice(['f', 'a.b', 'kmz']) + '.kmz'
        inner = rng.choice(['', 'doc.kml', 'a/b.png', 'x.kmz'])
        o = do(w, [['kmzsplit', z + ('/' + inner if inner else '')], ['kmzsplit', 'http://h.com/doc.kml']])
        w.eq([text(x) for x in o[0]], ['1', z, inner], 'kmzsplit', z)
        w.eq(o[1][0], b'0', 'kmznone', 'not a KMZ')
        w.seen(base)
    elif r < 0.84:
        v = [gen.g_double(rng) for _ in range(rng.choice([2, 3]))]
        o = do(w, [['vec3'] + [repr(x) for x in v]])
        w.eq(o[0][0].decode(), '%s,%s,%s,%d' % (gen.g17(v[0]), gen.g17(v[1]), gen.g17(v[2] if len(v) > 2 else 0.0), len(v) > 2), 'vec3', repr(v))
        d, ops, exp = {}, ['attributes'], []
        for _ in range(rng.randrange(1, 9)):
            k = rng.choice(['a', 'b', 'name', 'é'])
            if rng.random() < 0.5:
                x = gen.g_string(rng).replace('\x01', '')
                d[k] = x
                ops.append('=%s\x01%s' % (k, x))
                exp.append(str(len(d)))
            elif rng.random() < 0.6:
                ops.append('?' + k)
                exp += ['1', d[k]] if k in d else ['0']
            else:
                x = rng.choice(sorted(d.values()) + ['none'])
                ops.append('!' + x)
                exp.append(str(int(x in d.values())))
        o = do(w, [ops])[0]
        got = [text(x) for x in o]
        # a failed search still carries the untouched output: only what is found counts
        it = iter(got)
        out = []
        for a in ops[1:]:
            x = next(it)
            out.append(x)
            if a[0] == '?':
                y = next(it)
                if x == '1':
                    out.append(y)
        w.eq(out, exp, 'attributes', repr(ops))
        w.seen(repr(ops))
    else:
        kmz(w, rng)


def boxes(w, rng):
    b = c19.bnd([(c19.lat(rng), c19.lon(rng)), (c19.lat(rng), c19.lon(rng))])
    ops, exp = ['bbox', ' '.join(repr(x) for x in b)], []
    for _ in range(8):
        p = (c19.lat(rng), c19.lon(rng))
        k = rng.choice(['contains', 'contains', 'box', 'lat', 'lon', 'latlon'])
        if k == 'contains':
            if rng.random() < 0.5:
                p = (rng.choice([b[0], b[1], (b[0] + b[1]) / 2]), rng.choice([b[2], b[3], (b[2] + b[3]) / 2]))
            ops.append('contains %r %r' % p)
            exp.append(float(b[0] >= p[0] >= b[1] and b[2] >= p[1] >= b[3]))
            continue
        if k == 'box':
            q = c19.bnd([p, (c19.lat(rng), c19.lon(rng))])
            ops.append('box ' + ' '.join(repr(x) for x in q))
            b = [max(b[0], q[0]), min(b[1], q[1]), max(b[2], q[2]), min(b[3], q[3])]
        else:
            ops.append(k + ''.join(' %r' % x for x in (p if k == 'latlon' else p[:1] if k == 'lat' else p[1:])))
            if k != 'lon':
                b = [max(b[0], p[0]), min(b[1], p[0])] + b[2:]
            if k != 'lat':
                b = b[:2] + [max(b[2], p[1]), min(b[3], p[1])]
        exp.append(list(b))
    o = do(w, [ops])[0]
    got = [[float(y) for y in x.decode().split(',')] if b',' in x else float(x) for x in o]
    w.eq(got, exp, 'bbox', repr(ops))
    w.seen(repr(ops))


def kmz(w, rng):
    p = os.path.join(w.scratch, 'a.kmz')
    kml = '<kml><Placemark><name>%s</name></Placemark></kml>' % gen.esc_text(gen.g_string(rng))
    other = gen.g_string(rng) or 'x'
    first = rng.random() < 0.5
    with zipfile.ZipFile(p, 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        for k in ((0, 1) if first else (1, 0)):
            z.writestr(*[('doc.kml', kml), ('files/a.txt', other)][k])
    o = do(w, [['kzopen', 'z', p], ['kzreadkml', 'z'], ['kzread', 'z', 'files/a.txt'], ['kzread', 'z', 'no.txt'], ['kzopen', 'y', p + 'x'], ['drop', 'z'], ['gc']])
    w.eq(o[0], [b'ok'], 'kmzopen', 'an archive')
    w.eq([text(x) for x in o[1]], ['1', kml], 'readkml', 'the document of an archive')
    w.eq([text(x) for x in o[2]], ['1', other], 'readfile', 'a file of an archive')
    w.eq(o[3][0], b'0', 'nofile', 'a file which is not there')
    w.eq(o[4], [b'null'], 'noarchive', 'no archive')
    w.count('archives')
    w.seen((kml, other))
