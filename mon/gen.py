"""Random KML models, their XML spellings, API construction and expected dumps."""
import math
import struct
from . import schema as S

WORDS = ['a', 'name', 'Mt. Fuji', 'x1', 'zoom', 'Ångström', '東京', 'foo bar', 'ok', '0', '-1', 'true', 'http://e.com/a?b=1&c=2',
         'style.kml#s1', '#s', 'D\u00e9j\u00e0', '\U0001F30D', 'long ' * 30, 'q', 'tab\there', 'two\nlines']
SPECIAL = ['<', '>', '&', '"', "'", ']]>', '<![CDATA[', '&amp;', '&lt;', '<b>bold</b>', '$[name]', '${x}', '--', '?>', '%20', '\\',
           ';', '/', '#', ' ', '&#65;', '&&', '<<', '>>', '""', "''", '<br/>', '<a href="x">y</a>', 'a<b', 'b>a', '&x;', '\u00a0', ']]', ']', '>']


class Node(object):
    __slots__ = ('cls', 'f', 'unknown', 'uattrs', 'order', 'xm')

    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.unknown = []
        self.uattrs = {}
        self.order = None
        self.xm = {}

    def walk(self):
        yield self
        c = S.CLASSES[self.cls]
        for fl in c.fields:
            v = self.f.get(fl.acc)
            if v is None:
                continue
            if fl.kind == 'C':
                for x in v.walk():
                    yield x
            elif fl.kind == 'A':
                for y in v:
                    for x in y.walk():
                        yield x

    def kids(self):
        for fl in S.CLASSES[self.cls].fields:
            v = self.f.get(fl.acc)
            if v is None:
                continue
            if fl.kind == 'C':
                yield fl, v
            elif fl.kind == 'A':
                for y in v:
                    yield fl, y


def g_string(rng, special=0.5, multiline=True):
    r = rng.random()
    if r < 0.04:
        return ''
    if r < 0.5:
        s = rng.choice(WORDS)
        return s if multiline else s.replace('\n', ' ').replace('\t', ' ')
    n = rng.randrange(1, 7)
    parts = []
    for _ in range(n):
        parts.append(rng.choice(SPECIAL) if rng.random() < special else rng.choice(WORDS[:12]))
    if rng.random() < 0.02:
        parts.append('L' * rng.choice([100, 127, 128, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 9000] * 4 + [17000, 66000]))
    return ''.join(parts)


def g_double(rng):
    """A double with a decimal spelling of at most 15 significant digits."""
    r = rng.random()
    if r < 0.25:
        return float(rng.randrange(-360, 361))
    if r < 0.5:
        return round(rng.uniform(-180, 180), rng.randrange(1, 12))
    if r < 0.6:
        return rng.choice([0.0, 1.0, -1.0, 0.5, 90.0, -90.0, 180.0, -180.0, 1e-6, 1e6, 123456789.0, 1e15, 1e16, 1e21, -1e21, 1e-5, 1e-7,
                           0.1, 1e100, 1e300, -1e-300, 2147483647.0, 2147483648.0, -2147483649.0, 4294967296.0, 1e5, 999999.0, 9999999.0, 1234567.0, 123456.7])
    if r < 0.8:
        digits = rng.randrange(1, 16)
        m = rng.randrange(10 ** (digits - 1), 10 ** digits)
        e = rng.randrange(-30, 25)
        return float('%s%de%d' % (rng.choice(['', '-']), m, e - digits))
    return round(rng.uniform(-90, 90), rng.randrange(1, 14))


def g_double_text(rng, d):
    """Several decimal spellings of the same value."""
    s = repr(d)
    r = rng.random()
    if r < 0.6:
        return s[:-2] if s.endswith('.0') and rng.random() < 0.7 else s
    if r < 0.8:
        return '%.14e' % d if float('%.14e' % d) == d else s
    if r < 0.9 and abs(d) < 1e15 and abs(d) > 1e-4:
        t = '%.20f' % d
        return t if float(t) == d else s
    if r < 0.96:
        t = s.replace('e', 'E')
        if not t.startswith('-'):
            t = rng.choice(['', '+', '0', '000']) + t
        if t.startswith('0.') and rng.random() < 0.5:
            t = t[1:]
        elif t.endswith('.0') and rng.random() < 0.5:
            t = t[:-1]
        return t
    return s


def g_int(rng):
    return rng.choice([0, 1, 2, 3, 5, 10, 64, 256, 1024, -1, -5, 100000, 2147483647, -2147483648, rng.randrange(-1000, 1000)])


def g_id(rng):
    if rng.random() < 0.01:
        return 'i' * rng.choice([31, 32, 64, 255, 300]) + str(rng.randrange(3))
    return rng.choice(['a', 'b', 'c', 'd', 'A', 'B', 'id1', 'ID1', 'x-y', 'p_1', 'Z', 'feat.1', '~_.-']) + (str(rng.randrange(30)) if rng.random() < 0.7 else '')


class G(object):
    """Model generator.  budget bounds the node count; dens the field density."""

    def __init__(self, rng, budget=40, dens=0.3, strfn=None, xmlstr=True, no_ids=False, idfn=None, skip=(), dblfn=None, intfn=None):
        self.rng, self.left, self.dens = rng, budget, dens
        self.strfn = strfn or g_string
        self.idfn = idfn or g_id
        self.no_ids = no_ids
        self.skip = set(skip)
        self.dblfn = dblfn or g_double
        self.intfn = intfn or g_int

    def node(self, cls, depth=0):
        rng = self.rng
        self.left -= 1
        n = Node(cls)
        for fl in S.CLASSES[cls].fields:
            if fl.attr and fl.name in ('id', 'targetId') and S.CLASSES[cls].is_object:
                if not self.no_ids and rng.random() < (0.35 if fl.name == 'id' else 0.03):
                    n.f[fl.acc] = self.idfn(rng)
                continue
            p = self.dens
            if fl.kind in 'A':
                p = min(0.9, p * 1.8)
            if fl.kind in ('C', 'A') and (fl.arg in ('Feature', 'Geometry', 'UpdateOperation', 'Container', 'Coordinates')):
                p = max(p, 0.6)
            if fl.kind in 'TPVSE':
                p = 0.8
            if rng.random() >= p:
                continue
            v = self.value(fl, depth)
            if fl.name == 'href' and cls in ('Link', 'Icon', 'Url', 'IconStyleIcon') and v.startswith('<![CDATA[') and v.endswith(']]>'):
                v = v[1:]   # an href spelled as one whole CDATA section is unwrapped by design
            if v is not None:
                n.f[fl.acc] = v
        return n

    def value(self, fl, depth):
        rng, k = self.rng, fl.kind
        if k == 's':
            return self.strfn(rng)
        if k == 'T':
            return self.strfn(rng)
        if k == 'b':
            return rng.random() < 0.5
        if k == 'd':
            return self.dblfn(rng)
        if k == 'i':
            return self.intfn(rng)
        if k == 'c':
            return rng.choice([0, 0xffffffff, 0x7f000000, rng.randrange(1 << 32), rng.randrange(1 << 32)])
        if k == 'e':
            return rng.randrange(len(S.ENUMS[fl.arg]))
        if k == 'E':
            return [rng.randrange(6) for _ in range(rng.randrange(1, 4))]
        if k == 'S':
            return [self.strfn(rng) for _ in range(rng.choice([0, 1, 1, 2, 5]))] or None
        if k == 'V':
            return [tuple(self.dblfn(rng) for _ in range(3)) for _ in range(rng.choice([0, 1, 1, 2, 5]))] or None
        if k == 'P':
            n = rng.choice([0, 1, 1, 2, 3, 5, 20])
            return [(self.dblfn(rng), self.dblfn(rng), self.dblfn(rng) if rng.random() < 0.7 else None) for _ in range(n)]
        ms = [m for m in S.members(fl.arg) if m not in self.skip]
        if not ms or self.left <= 0 or depth > 12:
            return None
        if k == 'C':
            return self.node(rng.choice(ms), depth + 1)
        if k == 'A':
            r = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                if self.left <= 0:
                    break
                r.append(self.node(rng.choice(ms), depth + 1))
            return r or None
        raise AssertionError(k)


# ---- expected dump (same shape as the server's Dump) -----------------------
def _esc(s):
    out = []
    for b in s.encode('utf-8', 'surrogateescape'):
        if b < 32 or b in (0x5c, 0x22):
            out.append('\\x%02x' % b)
        else:
            out.append(chr(b))
    return ''.join(out)


def g17(d):
    if d == 0:
        return '-0' if math.copysign(1, d) < 0 else '0'
    return '%.17g' % d


def dump(n, ids=True):
    c = S.CLASSES[n.cls]
    out = ['(' + n.cls]
    for acc in sorted(c.by):
        fl = c.by[acc]
        v = n.f.get(acc)
        if v is None:
            continue
        k = fl.kind
        if not ids and acc in ('id', 'targetid') and c.is_object:
            continue
        if k == 'C':
            out.append(' %s=%s' % (acc, dump(v, ids)))
        elif k == 'A':
            for x in v:
                out.append(' %s+=%s' % (acc, dump(x, ids)))
        elif k in 'sT':
            out.append(' %s="%s"' % (acc, _esc(v)))
        elif k == 'b':
            out.append(' %s="%d"' % (acc, v))
        elif k == 'd':
            out.append(' %s="%s"' % (acc, g17(v)))
        elif k in 'ie':
            out.append(' %s="%d"' % (acc, v))
        elif k == 'c':
            out.append(' %s="%08x"' % (acc, v))
        elif k == 'E':
            for x in v:
                out.append(' %s+=%d' % (acc, x))
        elif k == 'S':
            for x in v:
                out.append(' %s+="%s"' % (acc, _esc(x)))
        elif k in 'VP':
            for x in v:
                out.append(' %s+="%s,%s,%s,%d"' % (acc, g17(x[0]), g17(x[1]), g17(x[2] if x[2] is not None else 0.0), x[2] is not None))
    for a in sorted(n.uattrs):
        out.append(' @%s="%s"' % (a, _esc(n.uattrs[a])))
    for a in sorted(n.xm):
        out.append(' xmlns@%s="%s"' % (a, _esc(n.xm[a])))
    for u in n.unknown:
        out.append(' unknown="%s"' % _esc(u))
    return ''.join(out) + ')'


def parsed(n):
    """The model a parse of n's spelling yields: text content is always set."""
    for x in n.walk():
        for fl in S.CLASSES[x.cls].fields:
            if fl.kind == 'T' and fl.acc not in x.f:
                x.f[fl.acc] = ''
    return n


# ---- XML spelling ----------------------------------------------------------
def esc_text(s, rng=None):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    return s


def esc_attr(s, q='"'):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('\r', '&#13;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s.replace('"', '&quot;') if q == '"' else s.replace("'", '&apos;')


class Writer(object):
    """Spells a model as XML.  noise: comments, whitespace, order, CDATA."""

    def __init__(self, rng, noise=0.0, shuffle=False, cdata=0.2, extra=None, sep=None, mixedbool=True, xmlns=False):
        self.rng, self.noise, self.shuffle, self.cdata = rng, noise, shuffle, cdata
        self.extra = extra
        self.sep = sep
        self.mixedbool = mixedbool
        self.xmlns = xmlns

    def ws(self):
        r = self.rng
        if self.noise and r.random() < self.noise:
            return r.choice(['\n', ' ', '\t', '\n  ', '<!-- c & < -->', '<?pi x?>', '\r\n', '<!---->'])
        return ''

    def text(self, s):
        r = self.rng
        if r.random() < self.cdata and s and ']]>' not in s and '\r' not in s:
            return '<![CDATA[' + s + ']]>'
        t = esc_text(s)
        if self.noise and r.random() < self.noise * 0.3 and s:
            # character references for some characters
            t = ''.join('&#x%x;' % ord(ch) if ord(ch) > 32 and r.random() < 0.2 else esc_text(ch) for ch in s)
        return t

    def scalar(self, fl, v):
        k, r = fl.kind, self.rng
        if k in 'sT':
            return v
        if k == 'b':
            return r.choice(['1', 'true'] if v else ['0', 'false']) if self.mixedbool else ('1' if v else '0')
        if k == 'd':
            return g_double_text(r, v) if self.noise else repr(v)
        if k == 'i':
            return str(v)
        if k == 'c':
            t = '%08x' % v
            return t.upper() if r.random() < 0.2 else t
        if k == 'e':
            return S.ENUMS[fl.arg][v]
        if k == 'E':
            return ' '.join(S.ENUMS['state'][x] for x in v)
        raise AssertionError(k)

    def coords(self, pts):
        r = self.rng
        out = []
        for p in pts:
            t = [g_double_text(r, x) if self.noise else repr(x) for x in p if x is not None]
            out.append(','.join(t))
        if self.sep:
            s = ''.join(x + r.choice(self.sep) for x in out)
        else:
            s = ' '.join(out)
        return s

    def xml(self, n, extra_attrs=''):
        c = S.CLASSES[n.cls]
        r = self.rng
        attrs, kids, inner = [], [], None
        for fl in c.fields:
            v = n.f.get(fl.acc)
            if v is None:
                continue
            if fl.attr:
                q = "'" if self.noise and r.random() < 0.2 else '"'
                attrs.append(' %s=%s%s%s' % (fl.name, q, esc_attr(self.scalar(fl, v), q), q))
            elif fl.kind == 'T':
                inner = self.text(v)
            elif fl.kind == 'P':
                inner = self.coords(v)
            elif fl.kind == 'C':
                kids.append([self.xml(v)])
            elif fl.kind == 'A':
                kids.append([self.xml(x) for x in v])
            elif fl.kind == 'S':
                kids.append(['<%s>%s</%s>' % (fl.name, self.text(x), fl.name) for x in v])
            elif fl.kind == 'V':
                kids.append(['<%s>%s</%s>' % (fl.name, ' '.join(repr(y) for y in x), fl.name) for x in v])
            elif fl.kind == 's':
                kids.append(['<%s>%s</%s>' % (fl.name, self.text(v), fl.name)])
            else:
                pad = (lambda: r.choice(['', '', ' ', '\n', '\n      ', '\t ', '\r\n  '])) if self.noise and fl.kind in 'bdic' and r.random() < 0.5 else (lambda: '')
                kids.append(['<%s>%s%s%s</%s>' % (fl.name, pad(), self.scalar(fl, v), pad(), fl.name)])
        for a in n.uattrs:
            attrs.append(' %s="%s"' % (a, esc_attr(n.uattrs[a])))
        if self.xmlns:
            for a in n.xm:
                attrs.append(' %s="%s"' % (a if a == 'xmlns' else 'xmlns:' + a, esc_attr(n.xm[a])))
        if self.extra:
            kids.extend(self.extra(n))
        if self.shuffle:
            r.shuffle(attrs)
            kids = interleave(r, kids)
        else:
            kids = [x for k in kids for x in k]
        body = inner or ''
        if inner is None:
            body = self.ws()
            for k in kids:
                body += k + self.ws()
        elif kids:
            body += ''.join(kids)
        tag = c.xml
        if not body and r.random() < 0.5:
            return '<%s%s%s/>' % (tag, ''.join(attrs), extra_attrs)
        return '<%s%s%s>%s</%s>' % (tag, ''.join(attrs), extra_attrs, body, tag)

    def doc(self, n, ns=True):
        r = self.rng
        ex = ''
        if ns:
            n.xm = {k or 'xmlns': v for k, v in S.XMLNS.items()}
            ex = ' xmlns="%s" xmlns:gx="%s" xmlns:atom="%s" xmlns:xal="%s"' % (S.XMLNS[''], S.XMLNS['gx'], S.XMLNS['atom'], S.XMLNS['xal'])
        head = r.choice(['', '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>'])
        return head + self.xml(n, ex)


def interleave(rng, groups):
    """Random merge that keeps the order inside each group."""
    groups = [list(g) for g in groups if g]
    out = []
    while groups:
        g = rng.choice(groups)
        out.append(g.pop(0))
        if not g:
            groups.remove(g)
    return out


# ---- construction through the API -----------------------------------------
def api_ops(n, reg, ops, ctr, rng=None, order=None):
    c = S.CLASSES[n.cls]
    ops.append(['newel', reg, n.cls])
    fl_order = list(c.fields)
    if rng:
        rng.shuffle(fl_order)
    for fl in fl_order:
        v = n.f.get(fl.acc)
        if v is None:
            continue
        k = fl.kind
        if k in 'sT':
            ops.append(['set', reg, fl.acc, v])
        elif k == 'b':
            ops.append(['set', reg, fl.acc, '1' if v else '0'])
        elif k == 'd':
            ops.append(['set', reg, fl.acc, repr(v)])
        elif k in 'ie':
            ops.append(['set', reg, fl.acc, str(v)])
        elif k == 'c':
            ops.append(['set', reg, fl.acc, '%08x' % v])
        elif k == 'E':
            ops.append(['clearstate', reg])
            for x in v:
                ops.append(['set', reg, fl.acc, str(x)])
        elif k == 'S':
            for x in v:
                ops.append(['set', reg, fl.acc, x])
        elif k in 'VP':
            for x in v:
                ops.append(['set', reg, fl.acc, ','.join(repr(y) for y in x if y is not None)])
        elif k in 'CA':
            for x in ([v] if k == 'C' else v):
                ctr[0] += 1
                r2 = 'n%d' % ctr[0]
                api_ops(x, r2, ops, ctr, rng)
                ops.append(['cset', reg, fl.acc, r2])
                ops.append(['drop', r2])
    return ops


def many(rng, small, big=(40, 120), p=0.01):
    """A size: mostly small, at times beyond what a fixed table would hold."""
    return rng.choice(big) if rng.random() < p else rng.choice(small)
