"""Numbers keep their value through text, and the caller's locale changes nothing and is left alone."""
import math
import os
import random
import re
import struct
import subprocess
from . import gen, reader, schema as S, c03, c05, c06, c07, c09, c11, c13, c16, c19, c20, c21, c24
from .runner import Violation
ID = 'C23'
RULE = ('random models with doubles of any bit pattern, integers and long decimal spellings; and the workloads and oracles of twelve other properties run '
        'under C and C++ locales with other decimal points, grouping and truth names, each failure repeated in the plain locale; distinct by values or by locale and case')
CASES = {'quick': 16000, 'thorough': 250000}
MIN = {'checks': 100000, 'numbers': 40000, 'under_commas': 1500, 'under_ones': 1500, 'under_german': 1500, 'texts': 20000}
LEX = re.compile(r'[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?\Z')
OTHERS = [c03, c05, c06, c07, c09, c11, c13, c16, c19, c20, c21, c24]
ASSUMPTIONS = ['doubles are written with 15 significant digits: the check asks for the value to that precision, infinities, NaN, and magnitudes '
               'outside 1e-300..1e308 are not in the domain']


def r15(d):
    return float('%.15g' % d)


def any_double(rng):
    r = rng.random()
    if r < 0.4:
        while 1:
            d = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
            if math.isfinite(d) and 1e-300 < abs(d) < 1e308:
                return d
    if r < 0.6:
        return rng.uniform(-180, 180)
    if r < 0.7:
        return rng.choice([-1, 1]) * 10.0 ** rng.randrange(-300, 308)
    if r < 0.8:
        return math.ldexp(1.0, rng.randrange(-900, 1000)) * rng.choice([1, -1, 1 + 2 ** -52, 1 - 2 ** -53])
    if r < 0.85:
        return rng.choice([0.0, -0.0, 0.1 + 0.2, 1 / 3.0, 2 ** 53 + 2.0, 9007199254740993.0, 5e-324 * 2 ** 100, 99999999999999.95, 999999999999999.9, 0.99999999999999994])
    return gen.g_double(rng)


def any_int(rng):
    return rng.choice([rng.randrange(-2 ** 31, 2 ** 31), rng.randrange(-2000, 2000), 1000, -1000, 1234567, 2 ** 31 - 1, -2 ** 31])


def locdir(w):
    d = os.path.join(w.scratch, 'loc')
    if not os.path.isdir(d):
        os.mkdir(d)
        subprocess.call(['localedef', '-c', '-f', 'UTF-8', '-i', 'de_DE', os.path.join(d, 'german')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return d


def setup(w):
    d = locdir(w)
    o = w.srv.run([['locale', 'german', d], ['whichlocale'], ['locale', 'C']])
    w.german = o[0][0] == b'german' and o[1][1] == b'1,5'


def enter(w, kind):
    if kind == 'german':
        return [['locale', 'german', locdir(w)]] if w.german else [['cpplocale', 'commas']]
    return [['cpplocale', kind]]


LEAVE = [['whichlocale'], ['locale', 'C'], ['cpplocale', 'classic']]


class Under(object):
    """The worker seen by another property's workload, within a locale."""

    def __init__(self, w, kind, mod):
        self.w, self.kind = w, kind
        self.ops = []
        self.scratch = os.path.join(w.scratch, 'under')
        os.makedirs(self.scratch, exist_ok=True)
        self.seed, self.tier, self.timeout, self.mod = w.seed, w.tier, w.timeout, mod

    def do(self, ops, timeout=None):
        pre = (LEAVE[1:] + enter(self.w, self.kind) + [['whichlocale']]) if self.kind else []
        post = LEAVE if self.kind else []
        o = self.w.do(pre + [list(x) for x in ops] + post, timeout)
        if self.kind:
            self.w.eq(o[len(pre) + len(ops)], o[len(pre) - 1], 'locale', 'the locale of the caller after the calls')
        return o[len(pre):len(pre) + len(ops)]

    def eq(self, *a):
        self.w.eq(*a)

    def check(self, *a):
        self.w.check(*a)

    def fail(self, *a):
        self.w.fail(*a)

    def count(self, *a):
        pass

    def seen(self, obj):
        pass

    def sample(self, obj):
        pass


def case(w, rng, i):
    if rng.random() < 0.4:
        numbers(w, rng)
    else:
        under(w, rng, i)


def under(w, rng, i):
    kind = rng.choice(['commas', 'ones', 'german'])
    mod = rng.choice(OTHERS)
    s = rng.getrandbits(64)
    try:
        mod.case(Under(w, kind, mod), random.Random(s), i)
    except Violation as v:
        ops = list(w.ops)
        w.do(LEAVE[1:])
        try:
            mod.case(Under(w, '', mod), random.Random(s), i)
        except Violation:
            w.count('elsewhere')   # fails in the plain locale, too: not about the locale
            return
        w.ops = ops
        raise Violation(kind + ':' + v.key, 'in a locale with %s, of %s: %s' % (kind, mod.ID, v.msg))
    w.count('under_' + kind)
    w.seen((kind, mod.ID, s))


def dbl(n, f):
    for x in n.walk():
        for fl in S.CLASSES[x.cls].fields:
            v = x.f.get(fl.acc)
            if v is None:
                continue
            if fl.kind == 'd':
                x.f[fl.acc] = f(v)
            elif fl.kind in 'PV':
                x.f[fl.acc] = [tuple(None if y is None else f(y) for y in p) for p in v]
    return n


def long_text(rng, d):
    r = rng.random()
    if r < 0.4:
        return '%.17g' % d
    if r < 0.6:
        return '%.*e' % (rng.randrange(16, 40), d)
    if r < 0.8 and 1e-6 < abs(d) < 1e16:
        t = '%.*f' % (rng.randrange(17, 40), d)
        return t if float(t) == d else repr(d)
    return rng.choice(['+', '', '0', '00']) + repr(d) if math.copysign(1, d) > 0 else repr(d)


def numbers(w, rng):
    cls = rng.choice(['Placemark', 'Document', 'LookAt', 'Camera', 'Model', 'LatLonAltBox', 'GroundOverlay', 'PhotoOverlay', 'Point', 'LineString', 'Track', 'Region',
                      'IconStyle', 'LabelStyle', 'ViewVolume', 'ScreenOverlay', 'Link', 'ImagePyramid', 'Lod', 'Scale', 'Orientation', 'Location', 'Wait', 'FlyTo', 'LatLonQuad'])
    if cls not in S.CLASSES:
        return
    n = gen.G(rng, rng.choice([3, 10, 30]), 0.9, dblfn=any_double, intfn=any_int, strfn=lambda r: 'x').node(cls)
    gen.parsed(n)
    exp = gen.dump(n)
    k = rng.choice(['commas', 'ones', 'german', '', '', ''])
    ops = (enter(w, k) if k else [])
    at = len(ops)
    ops += gen.api_ops(n, 'r', [], [0], rng)
    b = len(ops)
    ops += [['dump', 'r'], ['ser', 'r', 'raw'], ['clone', 'r', 'c'], ['dump', 'c']] + LEAVE[1:]
    o = w.do(ops)
    w.eq(o[b][0].decode('latin1'), exp, 'set', 'values set')
    raw = o[b + 1][0]
    c03.alt0(n)
    dbl(n, r15)
    exp15 = gen.dump(n)
    nums = [t for t in re.findall(r'(?<=>)[^<>a-zA-Z]*[0-9][^<>]*(?=<)', raw.decode('utf-8')) if not re.match(r'[0-9a-f]{8}\Z', t)]
    for t in nums:
        for y in re.split(r'[\s,]+', t.strip()):
            w.count('numbers')
    try:
        g = gen.dump(reader.read(raw, cls))
    except (reader.Malformed, reader.NotKml, ValueError) as e:
        w.fail('unreadable', '%s: %r' % (e, raw[:1500]))
    w.eq(g, exp15, 'written', 'numbers written')
    o = w.do((enter(w, k) if k else []) + [['parse', 'p', raw], ['dump', 'p'], ['ser', 'p', 'raw']] + LEAVE[1:])
    o = o[1 if k else 0:]
    w.eq(o[1][0].decode('latin1'), exp15, 'read', 'numbers read back')
    w.eq(o[2][0], raw, 'stable', 'numbers written again')
    # spellings: the nearest double of any decimal text
    vals = [any_double(rng) for _ in range(6)]
    txts = [long_text(rng, v) for v in vals]
    ints = [any_int(rng) for _ in range(3)]
    it = [rng.choice(['%d', ' %d', '%d\n', '\t%d ']) % v for v in ints]
    pad = [rng.choice(['', ' ', '\n\t']) for _ in txts]
    x = '<LookAt>%s</LookAt>' % ''.join('<%s>%s%s%s</%s>' % (t, p, v, p, t) for t, v, p in zip(('longitude', 'latitude', 'altitude', 'heading', 'tilt', 'range'), txts, pad))
    y = '<ImagePyramid><tileSize>%s</tileSize><maxWidth>%s</maxWidth><maxHeight>%s</maxHeight></ImagePyramid>' % tuple(it)
    c = '<LineString><coordinates>%s</coordinates></LineString>' % ' '.join('%s,%s,%s' % tuple(long_text(rng, v) for v in vals[j:j + 3]) for j in (0, 3))
    o = w.do((enter(w, k) if k else []) + [['parse', 'x', x, 'plain'], ['dump', 'x'], ['parse', 'y', y, 'plain'], ['dump', 'y'], ['parse', 'z', c, 'plain'], ['dump', 'z']] + LEAVE[1:])
    o = o[1 if k else 0:]
    for nm, v in zip(('longitude', 'latitude', 'altitude', 'heading', 'tilt', 'range'), vals):
        w.count('texts')
        w.check((' %s="%s"' % (nm, gen.g17(v))).encode() in o[1][0], 'nearest', lambda: '%s of %s is not %s: %r' % (nm, x, gen.g17(v), o[1][0]))
    for nm, v in zip(('tilesize', 'maxwidth', 'maxheight'), ints):
        w.check((' %s="%d"' % (nm, v)).encode() in o[3][0], 'integer', lambda: '%s of %r: %r' % (nm, y, o[3][0]))
    for j in (0, 3):
        t = ','.join(gen.g17(v) for v in vals[j:j + 3])
        w.check(t.encode() in o[5][0], 'coordinate', lambda: '%s: no %s in %r' % (c, t, o[5][0]))
    small(w, rng, k)
    w.seen(exp)
    w.sample({'class': cls, 'raw': raw[:300].decode('latin1')})


def small(w, rng, k):
    """Floats to 8 digits, other values as text, and the guard which makes numbers plain for as long as it lives."""
    f = struct.unpack('<f', struct.pack('<f', rng.choice([rng.uniform(-180, 180), rng.uniform(-1, 1), 10.0 ** rng.randrange(-30, 30), float(rng.randrange(10 ** 7))])))[0]
    n, t = any_int(rng), rng.choice(['', 'x', '1,5', 'a b'])
    pre = enter(w, k) if k else []
    o = w.do(pre + [['tostr', repr(f), str(n), t], ['localec'], ['whichlocale']] + LEAVE[1:])[len(pre):]
    w.check(LEX.match(o[0][0].decode('latin1')) and float(o[0][0]) == float('%.8g' % f), 'float', lambda: 'float %r as text: %r' % (f, o[0][0]))
    w.check(LEX.match(o[0][6].decode('latin1')) and float(o[0][6]) == r15(f), 'double', lambda: 'double %r as text: %r' % (f, o[0][6]))
    w.eq(o[0][1:6], [str(n).encode(), b'1', b'0', t.encode(), t.encode()], 'texts', repr((n, t)))
    w.eq(o[0][7], b'%02x!' % (n & 255), 'hex', repr(n))
    out = o[2][1] + b' ' + (b'2,0' if b',' in o[2][1] else b'2.5')
    w.eq(o[1], [out] + [b'1.5 2.5'] * 5 + [out, b'1'], 'guard', 'numbers before, within nested guards and after, in locale %r' % k)
    w.count('guards')
    if rng.random() < 0.05:
        v = [rng.randrange(-1, 6) for _ in range(3)]
        o = w.do([['version', *map(str, v)]])[0]
        ma, mi, mc = (int(x) for x in o[1:4])
        w.eq((o[0], o[4]), (b'%d.%d.%d' % (ma, mi, mc), b'1' if v[0] == ma and v[1] >= mi else b'0'), 'version', repr((v, o)))
