"""Independent XML reader: Python's expat, then the schema table -> model."""
import xml.parsers.expat as X
from . import gen, schema as S


class El(object):
    __slots__ = ('tag', 'attrs', 'kids', 'parts')

    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids = tag, attrs, []
        self.parts = []     # text runs and children, in order

    @property
    def text(self):
        return ''.join(p for p in self.parts if isinstance(p, str))

    def key(self, strip=True):
        """A comparable form: tag, attributes and content (blank text dropped)."""
        out, run = [], ''
        for p in self.parts:
            if isinstance(p, str):
                run += p
            else:
                if run.strip() or (run and not strip):
                    out.append(run)
                run = ''
                out.append(p.key(strip))
        if run.strip() or (run and not strip):
            out.append(run)
        return (self.tag, tuple(sorted(self.attrs.items())), tuple(out))

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x


class Malformed(ValueError):
    pass


def tree(data):
    """Parses bytes (or str); raises Malformed when it is not well-formed."""
    if isinstance(data, str):
        data = data.encode('utf-8', 'surrogateescape')
    p = X.ParserCreate('UTF-8')
    p.buffer_text = True
    stack, root = [], []

    def start(tag, attrs):
        e = El(tag, attrs)
        if stack:
            stack[-1].kids.append(e)
            stack[-1].parts.append(e)
        else:
            root.append(e)
        stack.append(e)

    def end(tag):
        stack.pop()

    def text(s):
        stack[-1].parts.append(s)
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    try:
        p.Parse(data, True)
    except X.ExpatError as e:
        raise Malformed(str(e))
    return root[0]


class NotKml(ValueError):
    pass


def scalar(fl, t):
    k = fl.kind
    if k in 'sT':
        return t
    if k == 'b':
        if t not in ('0', '1', 'true', 'false'):
            raise NotKml('bool %r' % t)
        return t in ('1', 'true')
    if k == 'd':
        return float(t)
    if k == 'i':
        return int(t)
    if k == 'c':
        if len(t) != 8:
            raise NotKml('colour %r' % t)
        return int(t, 16)
    if k == 'e':
        return S.ENUMS[fl.arg].index(t)
    if k == 'E':
        return [S.ENUMS['state'].index(x) for x in t.split()]
    raise AssertionError(k)


def point(t):
    v = [float(x) for x in t.split(',')]
    if len(v) not in (2, 3):
        raise NotKml('tuple %r' % t)
    return (v[0], v[1], v[2] if len(v) > 2 else None)


def node(e, cls=None, tstrip=False, order=None, extras=False):
    """The model this element denotes; raises NotKml on anything unexpected.
    order: list collecting (class, positions) when children leave schema order."""
    if cls is None:
        if e.tag not in S.BYXML:
            raise NotKml('unknown root ' + e.tag)
        cls = S.BYXML[e.tag].name
    c = S.CLASSES[cls]
    n = gen.Node(cls)
    for a, v in e.attrs.items():
        fl = c.byxml.get((True, a))
        if not fl:
            if a == 'xmlns' or a.startswith('xmlns:'):
                n.xm[a if a == 'xmlns' else a[6:]] = v
                continue
            n.uattrs[a] = v
            continue
        n.f[fl.acc] = scalar(fl, v)
    content = None
    for fl in c.fields:
        if fl.kind in 'TP' and not fl.attr:
            content = fl
    if content is not None and content.kind == 'T':
        n.f[content.acc] = e.text.strip() if tstrip else e.text
    elif content is not None:
        n.f[content.acc] = [point(t) for t in e.text.split()]
    elif e.text.strip():
        raise NotKml('stray text %r in %s' % (e.text.strip()[:50], e.tag))
    idx = {id(f): i for i, f in enumerate(c.fields)}
    pos = []
    for k in e.kids:
        fl = sub = None
        for f in c.fields:
            if f.attr:
                continue
            if f.kind in 'CA':
                ms = [m for m in S.members(f.arg) if S.CLASSES[m].xml == k.tag]
                if ms:
                    fl, sub = f, ms[0]
                    break
            elif f.kind not in 'TP' and f.name == k.tag:
                fl = f
                break
        if fl is None and extras:
            n.unknown.append(extra_key(k))
            continue
        if fl is None:
            raise NotKml('unexpected %s in %s' % (k.tag, e.tag))
        pos.append(idx[id(fl)])
        if fl.kind == 'C':
            if fl.acc in n.f:
                raise NotKml('second %s in %s' % (k.tag, e.tag))
            n.f[fl.acc] = node(k, sub, tstrip, order, extras)
        elif fl.kind == 'A':
            n.f.setdefault(fl.acc, []).append(node(k, sub, tstrip, order, extras))
        elif fl.kind == 'S':
            n.f.setdefault(fl.acc, []).append(k.text)
        elif fl.kind == 'V':
            v = [float(x) for x in k.text.split()]
            n.f.setdefault(fl.acc, []).append((v[0], v[1], v[2] if len(v) > 2 else None))
        else:
            if fl.acc in n.f:
                raise NotKml('second %s in %s' % (k.tag, e.tag))
            if k.kids:
                raise NotKml('%s with children' % k.tag)
            n.f[fl.acc] = scalar(fl, k.text)
    n.unknown.sort(key=lambda u: u[0] == 'U')
    if order is not None and pos != sorted(pos):
        order.append((cls, [c.fields[i].name for i in pos]))
    return n


KNOWN = set()
for _c in S.CLASSES.values():
    KNOWN.add(_c.xml)
    for _f in _c.fields:
        if not _f.attr and not _f.group and _f.kind not in 'TP':
            KNOWN.add(_f.name)
KNOWN |= {'Metadata'}


def extra_key(k):
    """An element its parent does not define: foreign (U) or misplaced KML (M)."""
    if k.tag not in KNOWN:
        return 'U' + repr(k.key(strip=False))
    if k.tag in S.BYXML:
        return 'M' + gen.dump(node(k, tstrip=True, extras=True))
    return 'M' + repr((k.tag, k.text))


def read(data, cls=None, tstrip=False, order=None, extras=False):
    return node(tree(data), cls, tstrip, order, extras)


def ns_ok(data):
    p = X.ParserCreate('UTF-8', ' ')
    try:
        p.Parse(data, True)
    except X.ExpatError:
        return False
    return True
