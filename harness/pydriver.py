"""Op server over the Python bindings: same frames and op names as the C++ one.  It has no oracle."""
import ctypes
import gc
import os
import struct
import sys

VERIF, MODS = os.environ['PYDRIVER'].split(':')
sys.path.insert(0, VERIF)
sys.path.insert(0, MODS)
import kmlbase    # noqa: E402
import kmldom     # noqa: E402
import kmlengine  # noqa: E402
from mon import schema as S, gen  # noqa: E402

F = kmldom.KmlFactory.GetFactory()
XML = {v: k[5:] for k, v in vars(kmldom).items() if k.startswith('Type_') and isinstance(v, int)}
NAMES = {v: k[:1].upper() + k[1:] for v, k in XML.items()}
slots = {}
OPS = {}


def op(f):
    OPS[f.__name__.rstrip('_')] = f
    return f


def put(slot, x):
    if x is None:
        slots.pop(slot, None)
        return ['null']
    slots[slot] = x
    return ['ok']


def cls(e):
    return NAMES[e.Type()]


def native(e):
    """The element as its own class."""
    n = cls(e)
    if hasattr(kmldom, n):
        return getattr(kmldom, 'As' + n)(e)
    return None


def fl(e, acc):
    return S.CLASSES[cls(e)].by[acc]


def val(f, t):
    if f.kind in 'sT':
        return t
    if f.kind == 'b':
        return t == '1'
    if f.kind == 'd':
        return float(t)
    if f.kind in 'ieE':
        return int(t)
    if f.kind == 'c':
        return kmlbase.Color32(int(t, 16))


def shown(f, v):
    if f.kind in 'sT':
        return v
    if f.kind == 'b':
        return '1' if v is True else '0' if v is False else repr(v)
    if f.kind == 'd':
        return gen.g17(v)
    if f.kind in 'ieE':
        return '%d' % v
    if f.kind == 'c':
        return '%08x' % v.get_color_abgr()


def point(v):
    return '%s,%s,%s,%d' % (gen.g17(v.get_longitude()), gen.g17(v.get_latitude()), gen.g17(v.get_altitude()), v.has_altitude())


def items(e, f):
    """The values of a repeated field."""
    a = 'coordinates' if f.kind == 'P' else f.acc
    if not hasattr(e, 'get_%s_array_size' % a) or f.kind == 'E' and not e.has_state():
        return []
    return [getattr(e, 'get_%s_array_at' % a)(i) for i in range(getattr(e, 'get_%s_array_size' % a)())]


def dump(e):
    n = cls(e)
    out = ['(' + n]
    x = native(e)
    if x is not None:
        c = S.CLASSES[n]
        for acc in sorted(c.by):
            f = c.by[acc]
            if f.kind in 'AEP':
                for v in items(x, f):
                    out.append(' %s+=%s' % (acc, dump(v) if f.kind == 'A' else '%d' % v if f.kind == 'E' else '"%s"' % point(v)))
            elif hasattr(x, 'has_' + acc) and getattr(x, 'has_' + acc)():
                v = getattr(x, 'get_' + acc)()
                out.append(' %s=%s' % (acc, dump(v)) if f.kind == 'C' else ' %s="%s"' % (acc, gen._esc(shown(f, v)) if f.kind in 'sT' else shown(f, v)))
    return ''.join(out) + ')'


@op
def reset():
    slots.clear()
    gc.collect()
    return []


@op
def gc_():
    gc.collect()
    return []


@op
def newel(r, n):
    return put(r, getattr(F, 'Create' + n)())


@op
def newid(r, n):
    return put(r, F.CreateElementById([v for v, k in NAMES.items() if k == n][0]))


@op
def set_(r, acc, t):
    e = slots[r]
    f = fl(e, acc)
    if f.kind == 'P':
        v = [float(x) for x in t.split(',')]
        (e.add_latlng if len(v) == 2 else e.add_latlngalt)(*([v[1], v[0]] + v[2:]))
        return []
    getattr(e, ('add_' if f.kind == 'E' else 'set_') + acc)(val(f, t))
    return []


@op
def get(r, acc):
    e = slots[r]
    return [shown(fl(e, acc), getattr(e, 'get_' + acc)())]


@op
def has(r, acc):
    return ['%d' % getattr(slots[r], 'has_' + acc)()]


@op
def clear(r, acc):
    getattr(slots[r], 'clear_' + acc)()
    return []


@op
def clearstate(r):
    slots[r].clear_state()
    return []


@op
def cset(r, acc, c):
    e = slots[r]
    getattr(e, ('add_' if fl(e, acc).kind == 'A' else 'set_') + acc)(None if c == '' else slots[c])
    return []


@op
def cget(r, acc, d, i=''):
    e = slots[r]
    v = getattr(e, 'get_%s_array_at' % acc)(int(i)) if i else getattr(e, 'get_' + acc)()
    if v is not None and hasattr(kmldom, cls(v)):
        v = native(v)
    return put(d, v)


@op
def keep(r, acc, d):
    slots[d] = getattr(slots[r], 'get_' + acc)()
    return []


@op
def kept(r):
    return ['%08x' % slots[r].get_color_abgr()]


@op
def size(r, acc):
    return ['%d' % getattr(slots[r], 'get_%s_array_size' % acc)()]


@op
def drop(r):
    slots.pop(r, None)
    return []


@op
def dup(r, d):
    return put(d, slots[r])


@op
def dump_(r):
    return [dump(slots[r]).encode('latin1')]


@op
def ser(r, how):
    return [(kmldom.SerializePretty if how == 'pretty' else kmldom.SerializeRaw)(slots[r] if r else None)]


@op
def parse(r, t, *how):
    e = kmldom.ParseKml(t)
    if e is not None and hasattr(kmldom, cls(e)):
        e = native(e)
    return put(r, e)


@op
def clone(r, d):
    return put(d, kmlengine.Clone(slots[r]))


@op
def cast(r, n, d):
    return put(d, getattr(kmldom, 'As' + n)(slots[r] if r else None))


@op
def casts(r):
    e = slots[r]
    return [cls(e), ' '.join(sorted(n[2:] for n in dir(kmldom) if n.startswith('As') and hasattr(kmldom, n[2:]) and n != 'AsElement' and getattr(kmldom, n)(e) is not None)),
            ' '.join(sorted(n for i, n in NAMES.items() if e.IsA(i)))]


@op
def heap():
    gc.collect()
    return ['%d' % ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes()]


@op
def fds():
    return ['%d' % len(os.listdir('/proc/self/fd'))]


def flat(x):
    """The results of a call with output arguments."""
    return list(x) if isinstance(x, (list, tuple)) else [x]


def txt(x):
    return '%d' % x if isinstance(x, bool) else gen.g17(x) if isinstance(x, float) else 'None' if x is None else x if isinstance(x, str) else '%d' % x if isinstance(x, int) else '<object>'


@op
def kfparse(k, t):
    r = flat(kmlengine.KmlFile.CreateFromParse(t))
    if not isinstance(r[0], kmlengine.KmlFile):
        slots.pop(k, None)
        return ['null'] + [txt(x) for x in r[-1:]]
    slots[k] = r[0]
    return ['ok'] + [txt(x) for x in r[1:]]


@op
def kfimport(k, r):
    return put(k, kmlengine.KmlFile.CreateFromImport(slots[r]))


@op
def kfroot(k, d):
    return put(d, slots[k].get_root())


@op
def kfser(k):
    return [txt(x) for x in flat(slots[k].SerializeToString())]


@op
def kfid(k, i, d):
    return put(d, slots[k].GetObjectById(i))


@op
def kfstyle(k, i, d):
    return put(d, slots[k].GetSharedStyleById(i))


@op
def kzopen(k, p):
    return put(k, kmlengine.KmzFile.OpenFromFile(p))


@op
def kzreadkml(k):
    return [txt(x) for x in flat(slots[k].ReadKml())]


@op
def kzread(k, p):
    return [txt(x) for x in flat(slots[k].ReadFile(p))]


@op
def rootfeature(r, d):
    return put(d, kmlengine.GetRootFeature(slots[r]))


@op
def bounds(r):
    b = kmlengine.Bbox()
    k = kmlengine.GetFeatureBounds(slots[r], b)
    return [txt(k)] + ([gen.g17(x) for x in (b.get_north(), b.get_south(), b.get_east(), b.get_west())] if k else [])


@op
def latlon(r):
    x = flat(kmlengine.GetFeatureLatLon(slots[r]))
    return [txt(x[0])] + ([gen.g17(y) for y in x[1:]] if x[0] else [])


@op
def bbox(n, *a):
    """n s e w of the first box or nothing, then calls."""
    b = kmlengine.Bbox(*[float(x) for x in n.split()]) if n else kmlengine.Bbox()
    out = []
    for c in a:
        c = c.split()
        v = [float(x) for x in c[1:]]
        if c[0] == 'contains':
            out.append(txt(b.Contains(*v)))
            continue
        if c[0] == 'box':
            b.ExpandFromBbox(kmlengine.Bbox(*v))
        else:
            getattr(b, {'lat': 'ExpandLatitude', 'lon': 'ExpandLongitude', 'latlon': 'ExpandLatLon'}[c[0]])(*v)
        out.append(','.join(gen.g17(x) for x in (b.get_north(), b.get_south(), b.get_east(), b.get_west())))
    return out


@op
def spliturl(u):
    return [txt(x) for x in flat(kmlengine.SplitUri(u))]


@op
def kmzsplit(u):
    return [txt(x) for x in flat(kmlengine.KmzSplit(u))]


def colour(c):
    return [c.get_color_abgr(), c.get_color_argb(), c.get_alpha(), c.get_blue(), c.get_green(), c.get_red()]


@op
def color(v, u):
    v, u = int(v), int(u)
    a, b, g, r = v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255
    cs = [kmlbase.Color32(v), kmlbase.Color32('%08x' % v), kmlbase.Color32(a, b, g, r)]
    for i in range(5):
        c = kmlbase.Color32(u)
        if i == 0:
            c.set_color_abgr(v)
        elif i == 1:
            c.set_color_abgr('%08x' % v)
        elif i == 2:
            c.set_color_abgr(a, b, g, r)
        elif i == 3:
            c.set_color_argb(cs[0].get_color_argb())
        else:
            c.set_alpha(a)
            c.set_red(r)
            c.set_green(g)
            c.set_blue(b)
        cs.append(c)
    out = [' '.join(str(x) for x in colour(c)) for c in cs]
    eq = getattr(cs[0], 'Color32_op_equal', None) or cs[0].__eq__
    return out + [cs[0].to_string_abgr(), cs[0].to_string_argb(), txt(bool(eq(cs[1]))), txt(bool(eq(kmlbase.Color32(u)))), ' '.join(str(x) for x in colour(kmlbase.Color32()))]


@op
def datetime(s):
    d = kmlbase.DateTime.Create(s)
    out = [txt(kmlbase.DateTime.ToTimeT(s))]
    if d is None:
        return out + ['null']
    return out + [txt(d.GetTimeT()), d.GetXsdTime(), d.GetXsdDate(), d.GetXsdDateTime()]


@op
def vec3(*a):
    v = [float(x) for x in a]
    return [point(kmlbase.Vec3(*v))]


@op
def attributes(*a):
    """name=value sets, then ?name and !value questions."""
    x = kmlbase.Attributes()
    out = []
    for t in a:
        if t[0] == '=':
            n, v = t[1:].split('\x01')
            x.SetString(n, v)
            out.append(txt(x.GetSize()))
        elif t[0] == '?':
            out += [txt(y) for y in flat(x.FindValue(t[1:]))[:2]]
        else:
            out += [txt(y) for y in flat(x.FindKey(t[1:]))[:1]]
    return out


@op
def names():
    """The value of every constant, by name."""
    return ['%s=%s' % (k, v) for k, v in sorted(vars(kmldom).items()) if isinstance(v, int) and not isinstance(v, bool)]


@op
def typename(n):
    return [kmldom.kmlDomTypeToString(int(n))]


@op
def version():
    return [kmlbase.Version.GetString()]


@op
def exposed():
    """Every public name of the bindings."""
    out = []
    for m in (kmlbase, kmldom, kmlengine):
        for n, v in vars(m).items():
            if n.startswith('_') or isinstance(v, type(sys)):
                continue
            if isinstance(v, type):
                out += ['%s.%s.%s' % (m.__name__, n, k) for k in dir(v) if not k.startswith('_') and k != 'thisown']
            out.append('%s.%s' % (m.__name__, n))
    return [' '.join(sorted(out))]


def read(n):
    b = b''
    while len(b) < n:
        x = os.read(0, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def write(b):
    b = memoryview(b)
    while b:
        b = b[os.write(3, b):]


def main():
    while 1:
        try:
            p = read(struct.unpack('<I', read(4))[0])
        except EOFError:
            break
        k = 4
        n, = struct.unpack_from('<I', p, 0)
        out = [struct.pack('<I', n)]
        for _ in range(n):
            na, = struct.unpack_from('<I', p, k)
            k += 4
            a = []
            for _ in range(na):
                l, = struct.unpack_from('<I', p, k)
                k += 4
                a.append(p[k:k + l].decode('utf-8', 'surrogateescape'))
                k += l
            f = OPS.get(a[0])
            if not f:
                o = ['!noop', a[0]]
            else:
                try:
                    o = f(*a[1:])
                except Exception as e:
                    o = ['!exc', type(e).__name__, str(e)]
                    e = None
            out.append(struct.pack('<I', len(o)))
            for x in o:
                x = x if isinstance(x, bytes) else x.encode('utf-8', 'surrogateescape')
                out.append(struct.pack('<I', len(x)) + x)
        b = b''.join(out)
        write(struct.pack('<I', len(b)) + b)


main()
