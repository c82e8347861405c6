"""The caches hold what was last fetched for each URL, at most their limit, the oldest leaving first, and fetch exactly when they must."""
from . import gen
from . import kmz
from .c15 import resolve
ID = 'C14'
RULE = ('histories of fetches, look-ups, saves, deletions and changes of a recorded network on the generic cache and on the KML/KMZ cache, '
        'with nested paths, KMZ-relative fallbacks, missing files, broken KML and broken KMZ; results and the exact list of network requests '
        'compared with a model after every operation; distinct by history')
CASES = {'quick': 72000, 'thorough': 200000}
MIN = {'checks': 150000, 'hits': 20000, 'requests': 20000, 'evicted': 10000, 'fallbacks': 1500, 'failed': 10000}


class Cache(object):
    def __init__(self, w, n):
        self.w, self.n, self.d = w, n, {}

    def get(self, u):
        return self.d.get(u)

    def save(self, u, v):
        if u in self.d:
            return False
        if len(self.d) == self.n:
            self.oldest()
        self.d[u] = v
        return True

    def oldest(self):
        if not self.d:
            return False
        del self.d[next(iter(self.d))]
        self.w.count('evicted')
        return True


def generic(w, rng):
    n = gen.many(rng, [1, 1, 2, 3, 5], (12, 33, 64), 0.05)
    m = Cache(w, n)
    net, log = {}, []
    ops, exp = [['cachenew', 'mem', str(n)]], [None]
    urls = ['http://h/%d' % k for k in range(gen.many(rng, [2, 4, 8], (40, 100), 0.03))]
    if rng.random() < 0.3:
        urls = rng.sample(['http://h/a', 'http://h/A', 'http://H/a', 'http://h/a/', 'http://h/a?q', 'http://h/a?Q', 'http://h/', 'http://h', 'a', '/a', 'file:///a', 'http://h/%61'], min(len(urls), 8))
    for _ in range(gen.many(rng, [10, 40], (300,), 0.03)):
        u = rng.choice(urls)
        r = rng.random()
        if r < 0.2:
            v = b'v%d' % rng.randrange(1000)
            net[u] = v
            ops.append(['net', u, v])
            exp.append(None)
            continue
        if r < 0.25:
            net.pop(u, None)
            ops.append(['netdel', u])
            exp.append(None)
            continue
        del log[:]
        if r < 0.6:
            v = m.get(u)
            if v is None:
                log.append(u)
                if u in net:
                    v = net[u]
                    m.save(u, v)
                else:
                    w.count('failed')
            else:
                w.count('hits')
            ops.append(['memfetch', u])
            e = [b'null'] if v is None else [b'ok', v]
        elif r < 0.7:
            v = m.get(u)
            ops.append(['memlookup', u])
            e = [b'null'] if v is None else [b'ok', v]
        elif r < 0.85:
            v = b's%d' % rng.randrange(1000)
            ops.append(['memsave', u, v])
            e = [b'1' if m.save(u, v) else b'0']
        elif r < 0.93:
            ops.append(['memdelete', u])
            e = [b'1' if m.d.pop(u, None) is not None else b'0']
        else:
            ops.append(['memoldest'])
            e = [b'1' if m.oldest() else b'0']
        exp.append(e)
        ops += [['memsize'], ['netlog']]
        exp += [[str(len(m.d)).encode()], [x.encode() for x in log]]
        w.count('requests', len(log))
    finish_(w, ops, exp)


def finish_(w, ops, exp):
    o = w.do(ops)
    for k, (q, e, a) in enumerate(zip(ops, exp, o)):
        if e is not None:
            w.eq(a, e, q[0], '%r (operation %d)' % (q[:3], k))
    w.seen(ops)
    w.sample({'history': [[x[:60].decode('latin1') if isinstance(x, bytes) else x for x in q[:4]] for q in ops[:12]]})


def kmzsplit(u):
    k = -1
    while True:
        k = u.find('.kmz', k + 1)
        if k < 0:
            return None
        if len(u) == k + 4 or u[k + 4] == '/':
            return u[:k + 4], u[k + 5:]


class World(object):
    """model of KmlCache over KmzCache over the network"""

    def __init__(self, w, n):
        self.w = w
        self.kml, self.kmz, self.raw = Cache(w, n), Cache(w, n), Cache(w, n)
        self.net, self.log = {}, []

    def fetch(self, cache, u, ok=lambda v: True):
        v = cache.get(u)
        if v is not None:
            self.w.count('hits')
            return v
        self.log.append(u)
        self.w.count('requests')
        v = self.net.get(u)
        if v is None or not ok(v):
            return None
        cache.save(u, v)
        return v

    def data(self, base, target, depth=0):
        """(content, url, tried) of a reference"""
        url = resolve(base, target).split('#')[0]
        z = kmzsplit(url)
        if not z:
            v = self.fetch(self.raw, url)
            return (None, None) if v is None else (v.raw, url)
        f = self.fetch(self.kmz, z[0], lambda v: v.entries is not None)
        if f is None:
            return None, None
        if z[1]:
            c = f.entries.get(z[1])
            at = url
        else:
            at = f.default and z[0] + '/' + f.default
            c = f.default and f.entries.get(f.default)
        if c:
            return c, at
        again = resolve(z[0], target).split('#')[0]
        if again == url:
            return None, None
        self.w.count('fallbacks')
        c, _ = self.data(z[0], target)
        return c, again if c is not None else None

    def file(self, base, target):
        url = resolve(base, target).split('#')[0]
        f = self.kml.get(url)
        if f is not None:
            self.w.count('hits')
            return f
        c, at = self.data(base, target)
        if c is None:
            return None
        n = kml_name(c)
        if n is None:
            return None
        f = (n, at)
        self.kml.save(at, f)
        return f


class File(object):
    def __init__(self, raw, entries=None, default=None):
        self.raw, self.entries, self.default = raw, entries, default


KMZS = {}


def kml_name(c):
    """the name in the KML found in this content, None if it is not KML"""
    if c[:4] == b'PK\3\4':
        f = KMZS.get(c)
        if f is None or not f.default:
            return None
        c = f.entries[f.default]
        if not c:
            return None
    if not c.startswith(b'<kml><Document><name>') or not c.endswith(b'</kml>'):
        return None
    return c[len(b'<kml><Document><name>'):c.index(b'</name>')]


def content(rng, k):
    r = rng.random()
    if r < 0.12:
        return b'<kml><Document><name>broken%d' % k
    if r < 0.18:
        return b'no kml %d' % k
    return b'<kml><Document><name>n%d</name></Document></kml>' % k


def thing(rng, k, kz):
    if kz:
        r = rng.random()
        if r < 0.15:
            return File(rng.choice([b'not a zip', b'PK\5\6', b'<kml><Document><name>odd%d</name></Document></kml>' % k]))
        names = rng.sample(['doc.kml', 'a.kml', 's/b.kml', 'x.png', 's/x.png', 's/doc.kml', 'z.kmz'], rng.choice([1, 2, 4]))
        es = {n: (b'png%d' % k if n.endswith('png') else content(rng, k)) for n in names}
        raw = kmz.build([kmz.Entry(n.encode(), d, 8) for n, d in es.items()])
        f = File(raw, es, next((n for n in names if n.endswith('.kml')), None))
        KMZS[raw] = f
        return f
    if rng.random() < 0.1:
        f = thing(rng, k, True)
        return File(f.raw)   # a KMZ under another name
    return File(content(rng, k))


def engine(w, rng):
    n = rng.choice([1, 1, 2, 3, 6])
    m = World(w, n)
    KMZS.clear()
    ops, exp = [['cachenew', 'kml', str(n)]], [None]
    places = ['http://h/a.kml', 'http://h/d/b.kml', 'http://h/d/x.png', 'http://h/d/z.kmz', 'http://h/z.kmz', 'http://h/d/s/b.kml', 'http://h/s/b.kml', 'http://g/y.kmz', 'http://h/a.kml?v=1', 'http://h/a.kml?v=2', 'http://h/doc.kml', 'http://h/d/doc.kml']
    bases = places + ['http://h/d/z.kmz/doc.kml', 'http://h/d/z.kmz/s/b.kml', 'http://h/z.kmz/a.kml', 'http://g/y.kmz/s/doc.kml']
    rels = ['a.kml', 'b.kml', 'x.png', 's/b.kml', '../a.kml', '../d/b.kml', 'z.kmz', 'z.kmz/doc.kml', 'z.kmz/s/b.kml', '../x.png', '#f', 'doc.kml#g', '../z.kmz', 'http://g/y.kmz',
            'http://g/y.kmz/x.png', '../../d/x.png', 'a.kml?v=1', 'a.kml?v=2', '../a.kml?v=1', 's/x.png', 'nope', 'y.kmz/z.kmz', 'http://h/a.kml#q', '']
    k = 0
    for u in places:
        if rng.random() < 0.6:
            k += 1
            m.net[u] = thing(rng, k, u.endswith('.kmz'))
            ops.append(['net', u, m.net[u].raw])
            exp.append(None)
    for step in range(rng.choice([8, 25])):
        r = rng.random()
        if r < 0.15:
            u = rng.choice(places)
            k += 1
            m.net[u] = thing(rng, k, u.endswith('.kmz'))
            ops.append(['net', u, m.net[u].raw])
            exp.append(None)
            continue
        if r < 0.2:
            u = rng.choice(places)
            m.net.pop(u, None)
            ops.append(['netdel', u])
            exp.append(None)
            continue
        m.log = []
        if r < 0.4:
            u = rng.choice(bases)
            f = m.file(u, u)
            ops.append(['kmlfetchabs', u, 'k%d' % (step % 4)])
        elif r < 0.75:
            b, t = rng.choice(bases), rng.choice(rels)
            f = m.file(b, t)
            ops.append(['kmlfetchrel', b, t, 'k%d' % (step % 4)])
        elif r < 0.85:
            b, t = rng.choice(bases), rng.choice(rels)
            c, at = m.data(b, t)
            ops.append(['datafetchrel', b, t])
            exp.append([b'1', c] if c is not None else [b'0', b''])
            f = False
        else:
            # through a NetworkLink or an Overlay of a file which has this URL
            b, t = rng.choice(bases), rng.choice([x for x in rels if x])
            w.count('links')
            ov = rng.choice(['GroundOverlay', 'ScreenOverlay', 'PhotoOverlay'])
            none = rng.random() < 0.1
            if r < 0.925:
                x = '<NetworkLink><%s/></NetworkLink>' % rng.choice(['Link', 'name']) if none else '<NetworkLink><Link><href>%s</href></Link></NetworkLink>' % t
            else:
                x = '<%s><%s/></%s>' % (ov, rng.choice(['Icon', 'name']), ov) if none else '<%s><Icon><href>%s</href></Icon></%s>' % (ov, t, ov)
            ops += [['kfcache', 'kl', x, b], ['kfroot', 'kl', 'rl']]
            exp += [[b'ok'], [b'ok']]
            if r < 0.925:
                f = None if none else m.file(b, t)
                ops.append(['fetchlink', 'kl', 'rl', 'k%d' % (step % 4)])
            else:
                c = None if none else m.data(b, t)[0]
                ops.append(['fetchicon', 'kl', 'rl'])
                exp.append([b'1', c] if c is not None else [b'0', b''])
                f = False
        if f is not False:
            if f is None:
                w.count('failed')
                exp.append([b'null'])
            else:
                exp.append([b'ok', f[1].encode()])
                ops.append(['kfser', 'k%d' % (step % 4)])
                exp.append(('has', b'<name>' + f[0] + b'</name>'))
        ops.append(['netlog'])
        exp.append([x.encode() for x in m.log])
    o = w.do(ops)
    for j, (q, e, a) in enumerate(zip(ops, exp, o)):
        if e is None:
            continue
        if isinstance(e, tuple):
            w.check(e[1] in a[1], 'content', lambda: 'the file fetched last holds %r, not %r (operation %d)' % (a[1][:200], e[1], j))
        else:
            w.eq(a, e, q[0], '%r (operation %d, after %r)' % (q[:3], j, [x[:3] for x in ops[max(0, j - 2):j]]))
    w.seen(ops)
    w.sample({'history': [[x[:60].decode('latin1') if isinstance(x, bytes) else x for x in q[:4]] for q in ops[:12]]})


def case(w, rng, i):
    if rng.random() < 0.3:
        generic(w, rng)
    else:
        engine(w, rng)
