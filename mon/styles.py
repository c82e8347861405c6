"""Reference model of KML style resolution (OGC KML 2.2, 6.4 / 12.2): a feature's style is the shared
style its styleUrl names, overridden value by value by its inline style."""
import copy
from urllib.parse import urljoin
from . import gen, schema as S

MAX = 5       # documented bound on styleUrls followed


def merge(src, dst):
    for fl in S.CLASSES[src.cls].fields:
        v = src.f.get(fl.acc)
        if v is None:
            continue
        if fl.kind == 'C' and fl.acc in dst.f and dst.f[fl.acc].cls == v.cls:
            merge(v, dst.f[fl.acc])
        else:
            dst.f[fl.acc] = copy.deepcopy(v)


def noids(n):
    for x in n.walk():
        x.f.pop('id', None)
        x.f.pop('targetid', None)
    return n


class File(object):
    def __init__(self, url, root):
        self.url, self.root = url, root
        self.shared = {}
        for d in root.walk():
            if d.cls == 'Document':
                for s in d.f.get('styleselector', []):
                    if 'id' in s.f:
                        self.shared[s.f['id']] = s


class World(object):
    """Files by URL.  A KMZ is {inner path: File}; its first entry is the default document."""

    def __init__(self):
        self.files, self.kmz = {}, {}

    def fetch(self, base, path):
        if base is None:
            return None
        k = base.find('.kmz/')
        u = urljoin(base, path)
        f = self.get(u)
        if f is None and k >= 0 and u.startswith(base[:k + 5]):
            f = self.get(urljoin(base[:k + 4], path))
        return f

    def get(self, u):
        if u in self.files:
            return self.files[u]
        k = u.find('.kmz')
        if k >= 0 and u[:k + 4] in self.kmz:
            z = self.kmz[u[:k + 4]]
            inner = u[k + 5:]
            return z[inner] if inner in z else (z[next(iter(z))] if not inner else None)
        return None


class Resolver(object):
    def __init__(self, world, state, cache=True, limit=MAX):
        self.world, self.state, self.cache, self.limit = world, state, cache, limit
        self.out = gen.Node('Style')
        self.calls = 0
        self.merged = 0

    def style(self, url, sel, f):
        self.url(url, f)
        self.sel(sel, f)

    def url(self, url, f):
        self.calls += 1
        if self.calls > self.limit or not url or '#' not in url:
            return
        path, frag = url.split('#', 1)
        if not frag:
            return
        if path:
            f = self.world.fetch(f.url, path) if self.cache else None
            if f is None:
                return
        if frag in f.shared:
            self.sel(f.shared[frag], f)

    def sel(self, s, f):
        if s is None:
            return
        if s.cls == 'Style':
            merge(s, self.out)
            self.merged += 1
        else:
            for p in s.f.get('pair', []):
                if p.f.get('key', 0) == self.state:
                    self.style(p.f.get('styleurl', ''), p.f.get('styleselector'), f)


def resolve(world, f, url, sel, state, cache=True, limit=MAX):
    r = Resolver(world, state, cache, limit)
    r.style(url, sel, f)
    return r


def gen_style(rng, g, dens):
    g.left, g.dens = 30, dens
    while 1:
        n = g.node('Style')
        for k in ('liststyle',):
            if k in n.f:
                n.f[k].f.pop('itemicon', None)
        return n


def gen_map(rng, g, dens, urls, depth=0):
    """A StyleMap whose pairs reference or hold styles."""
    m = gen.Node('StyleMap')
    pairs = []
    keys = [0, 1] if rng.random() < 0.7 else [rng.randrange(2) for _ in range(rng.choice([0, 1, 3]))]
    for k in keys:
        p = gen.Node('Pair')
        if k or rng.random() < 0.8:
            p.f['key'] = k
        r = rng.random()
        if r < 0.65:
            p.f['styleurl'] = rng.choice(urls)
        if r > 0.5:
            p.f['styleselector'] = gen_style(rng, g, dens) if depth > 1 or rng.random() < 0.7 else gen_map(rng, g, dens, urls, depth + 1)
        pairs.append(p)
    if pairs:
        m.f['pair'] = pairs
    return m
