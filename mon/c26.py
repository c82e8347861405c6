"""Every accessor family (set/get/has/clear, add/size/at/delete) behaves as an independent field with the KML default."""
import struct
from . import gen, schema as S
ID = 'C26'
RULE = ('random sequences of accessor calls on an element of every class, compared after every call with a model of independent fields; '
        'a case is one sequence; distinct by final state')
CASES = {'quick': 40000, 'thorough': 200000}
MIN = {'checks': 30000, 'calls': 30000, 'refused': 300, 'defaults': 5000, 'many': 800}
# defaults of the KML 2.2 schema; 0 / false / first enum item / '' otherwise
DEF = {'visibility': True, 'fill': True, 'outline': True, 'color': 0xffffffff, 'bgColor': 0xffffffff, 'textColor': 0xff000000,
       ('IconStyle', 'scale'): 1.0, ('LabelStyle', 'scale'): 1.0, 'width': 1.0, 'refreshInterval': 4.0, 'viewRefreshTime': 4.0,
       'viewBoundScale': 1.0, 'maxLodPixels': -1.0, 'tileSize': 256, 'maxLines': 2, 'maxSnippetLines': 2, 'x': 1.0, 'y': 1.0, 'z': 1.0,
       'north': 180.0, 'south': -180.0, 'east': 180.0, 'west': -180.0}
CL = sorted(S.CLASSES)


def enc(fl, v):
    k = fl.kind
    if k in 'sT':
        return v
    if k == 'b':
        return '1' if v else '0'
    if k == 'd':
        return repr(v)
    if k in 'ie':
        return str(v)
    if k == 'c':
        return '%08x' % v
    raise AssertionError(k)


def shown(fl, v):
    """How the server prints a getter's value."""
    return gen.g17(v) if fl.kind == 'd' else enc(fl, v)


def default(cls, fl):
    if (cls, fl.name) in DEF:
        return DEF[cls, fl.name]
    if fl.name in DEF:
        return DEF[fl.name]
    return {'s': '', 'T': '', 'b': False, 'd': 0.0, 'i': 0, 'e': 0, 'c': 0xffffffff}[fl.kind]


def anydouble(rng):
    if rng.random() < 0.5:
        return gen.g_double(rng)
    while 1:
        d = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
        if d == d:
            return d


def anyint(rng):
    return rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randrange(-2 ** 31, 2 ** 31)])


def case(w, rng, i):
    cls = CL[i % len(CL)] if rng.random() < 0.8 else rng.choice(CL)
    c = S.CLASSES[cls]
    n = gen.Node(cls)
    g = gen.G(rng, 4, 0.4, dblfn=anydouble, intfn=anyint)
    ops, exp = [['newel', 'r', cls]], []        # exp: (op index, expected first output, key, what)
    ctr = [0]
    fields = c.fields
    held = []                                   # registers of attached children (have a parent)

    def see(key):
        exp.append((len(ops), gen.dump(n), 'state:' + key))
        ops.append(['dump', 'r'])

    def defs(fl):
        w.count('defaults')
        ops.append(['has', 'r', fl.acc])
        exp.append((len(ops) - 1, '0', 'has:%s.%s' % (cls, fl.acc)))
        if fl.kind in 'CA':
            ops.append(['cget', 'r', fl.acc, 'x'])
            exp.append((len(ops) - 1, 'null', 'default:%s.%s' % (cls, fl.acc)))
        else:
            ops.append(['get', 'r', fl.acc])
            exp.append((len(ops) - 1, shown(fl, default(cls, fl)), 'default:%s.%s' % (cls, fl.acc)))
    see('new')
    for fl in fields:
        if fl.kind not in 'AESVP':
            defs(fl)
    for _ in range(rng.choice([3, 8, 20])):
        if not fields:
            break
        fl = rng.choice(fields)
        k = fl.kind
        name = '%s.%s' % (cls, fl.acc)
        w.count('calls')
        if k in 'sTbdice':
            if rng.random() < 0.35:
                ops.append(['clear', 'r', fl.acc])
                n.f.pop(fl.acc, None)
                see('clear:' + name)
                defs(fl)
            else:
                v = rng.choice([0, 0x12345678, rng.getrandbits(32)]) if k == 'c' else g.value(fl, 0)
                if rng.random() < 0.15:
                    v = default(cls, fl)        # an explicit default is set as well
                ops.append(['set', 'r', fl.acc, enc(fl, v)])
                n.f[fl.acc] = v
                see('set:' + name)
                ops.append(['get', 'r', fl.acc])
                exp.append((len(ops) - 1, shown(fl, v), 'get:' + name))
                ops.append(['has', 'r', fl.acc])
                exp.append((len(ops) - 1, '1', 'has:' + name))
        elif k == 'E':
            if fl.acc not in n.f or rng.random() < 0.3:
                ops.append(['clearstate', 'r'])
                n.f.pop(fl.acc, None)
                see('clear:' + name)
            v = rng.randrange(6)
            ops.append(['set', 'r', fl.acc, str(v)])
            n.f.setdefault(fl.acc, []).append(v)
            see('add:' + name)
        elif k in 'SVP':
            if k == 'P' and rng.random() < 0.1:
                ops.append(['clearcoords', 'r'])
                n.f.pop(fl.acc, None)
            else:
                v = g.strfn(rng) if k == 'S' else (anydouble(rng), anydouble(rng), anydouble(rng) if k == 'V' or rng.random() < 0.7 else None)
                ops.append(['set', 'r', fl.acc, v if k == 'S' else ','.join(repr(x) for x in v if x is not None)])
                n.f.setdefault(fl.acc, []).append(v)
            see('add:' + name)
            ops.append(['size', 'r', fl.acc])
            exp.append((len(ops) - 1, str(len(n.f.get(fl.acc, []))), 'size:' + name))
        else:
            r = rng.random()
            if k == 'C' and r < 0.25:
                ops.append(['clear', 'r', fl.acc])
                n.f.pop(fl.acc, None)
                see('clear:' + name)
                defs(fl)
                continue
            if k == 'A' and r < 0.3 and fl.acc in ('feature', 'schema', 'styleselector') and (cls == 'Document' or (cls == 'Folder' and fl.acc == 'feature')):
                l = n.f.get(fl.acc, [])
                at = rng.randrange(len(l) + 2)
                ops.append(['delat', 'r', fl.acc, at, 'del'])
                exp.append((len(ops) - 1, 'ok' if at < len(l) else 'null', 'delete:' + name))
                if at < len(l):
                    v = l.pop(at)
                    ops.append(['dump', 'del'])
                    exp.append((len(ops) - 1, gen.dump(v), 'deleted:' + name))
                see('delete:' + name)
                continue
            same = [h for h in held if h[0] in S.members(fl.arg)]
            if same and r < 0.5:
                cls2, reg, v = rng.choice(same)
                ops.append(['cset', 'r', fl.acc, reg])
                if any(v is y or isinstance(y, list) and any(v is z for z in y) for y in n.f.values()):
                    # it already has a parent: refused, nothing changes
                    w.count('refused')
                    see('second-parent:' + name)
                else:               # taken out before: it has none
                    if k == 'C':
                        n.f[fl.acc] = v
                    else:
                        n.f.setdefault(fl.acc, []).append(v)
                    w.count('again')
                    see('again:' + name)
                continue
            if k == 'A' and r < 0.55:
                ops.append(['cset', 'r', fl.acc, 'none'])     # NULL is ignored
                see('null:' + name)
                continue
            g.left = 3
            v = g.node(rng.choice(S.members(fl.arg)), 8)
            ctr[0] += 1
            reg = 'k%d' % ctr[0]
            gen.api_ops(v, reg, ops, ctr)
            ops.append(['cset', 'r', fl.acc, reg])
            held.append((v.cls, reg, v))
            if k == 'C':
                n.f[fl.acc] = v
                see('set:' + name)
                ops.append(['cget', 'r', fl.acc, 'x'])
            else:
                n.f.setdefault(fl.acc, []).append(v)
                see('add:' + name)
                ops.append(['size', 'r', fl.acc])
                exp.append((len(ops) - 1, str(len(n.f[fl.acc])), 'size:' + name))
                ops.append(['cat', 'r', fl.acc, len(n.f[fl.acc]) - 1, 'x'])
            ops.append(['same', 'x', reg])
            exp.append((len(ops) - 1, '1', 'identity:' + name))
            ops.append(['parent', reg, 'p'])
            ops.append(['same', 'p', 'r'])
            exp.append((len(ops) - 1, '1', 'parent:' + name))
    o = w.do(ops)
    for k, e, key in exp:
        w.eq(o[k][0].decode('latin1'), ''.join(chr(b) for b in e.encode('utf-8', 'surrogateescape')) if key[:3] in ('get', 'def') else e, key,
             'after %r' % (ops[max(0, k - 3):k + 1],))
    if rng.random() < 0.04:
        many(w, rng)
    w.count('cls_' + cls)
    w.seen((cls, gen.dump(n)))
    w.sample({'class': cls, 'ops': [list(map(str, q))[:4] for q in ops[1:12]]})


ARRAYS = [(c.name, fl) for c in S.CLASSES.values() for fl in c.fields if fl.kind == 'A']


def many(w, rng):
    """an array of any length keeps its elements in order of addition, removal takes the one named"""
    cls, fl = rng.choice(ARRAYS)
    if rng.random() < 0.5:
        cls, fl = rng.choice([x for x in ARRAYS if x[0] in ('Document', 'Folder')])
    mem = [m for m in S.members(fl.arg) if not any(f.kind == 'T' for f in S.CLASSES[m].fields)] or S.members(fl.arg)
    size = rng.choice([10, 17, 33, 65, 130, 300] + [1100] * (rng.random() < 0.2))
    ops, l = [['newel', 'r', cls]], []
    for k in range(size):
        m = rng.choice(mem)
        ops += [['newel', 'm', m]]
        v = gen.Node(m)
        f = [f for f in S.CLASSES[m].fields if f.acc in ('id', 'name', 'href', 'rel')]
        if f:
            v.f[f[0].acc] = 'v%d' % k
            ops.append(['set', 'm', f[0].acc, 'v%d' % k])
        ops.append(['cset', 'r', fl.acc, 'm'])
        l.append(v)
    ops.append(['drop', 'm'])
    exp = []
    if cls in ('Document', 'Folder') and fl.acc in ('feature', 'schema', 'styleselector'):
        for _ in range(rng.choice([1, 3, 10])):
            at = rng.choice([0, 0, 1, len(l) - 1, len(l), rng.randrange(len(l) + 1)])
            ops += [['delat', 'r', fl.acc, at, 'del'], ['dump', 'del']]
            exp.append((len(ops) - 1, gen.dump(l.pop(at)) if at < len(l) else None))
            if not l:
                break
    n = gen.Node(cls)
    if l:
        n.f[fl.acc] = l
    at = rng.randrange(len(l) + 1)
    o = w.do(ops + [['size', 'r', fl.acc], ['dump', 'r'], ['cat', 'r', fl.acc, min(at, len(l) - 1), 'x'], ['dump', 'x']], timeout=60)
    for k, e in exp:
        if e is not None:
            w.eq(o[k][0].decode('latin1'), e, 'many:deleted', 'removed from %s.%s of %d' % (cls, fl.acc, size))
        else:
            w.eq(o[k - 1][0], b'null', 'many:deleted', 'nothing beyond the end')
    w.eq(int(o[-4][0]), len(l), 'many:size', 'size of %s.%s' % (cls, fl.acc))
    w.eq(o[-3][0].decode('latin1'), gen.dump(n), 'many', 'all of %s.%s' % (cls, fl.acc))
    if l:
        w.eq(o[-1][0].decode('latin1'), gen.dump(l[min(at, len(l) - 1)]), 'many:at', 'the element at a position')
    w.count('many')
