"""No KMZ bytes corrupt, crash, leak or hang the library; intact entries of valid archives are read, damaged ones refused."""
import os
import struct
import zlib
from . import c35, gen, kmz
ID = 'C02'
RULE = ('archives built field by field: valid ones, and ones with hostile sizes, offsets, names, counts, methods, flags, comments, truncation, '
        'overlap and byte damage; every entry and the default document is read, listed, packaged and fetched through the caches; distinct by bytes')
CASES = {'quick': 40000, 'thorough': 300000}
MIN = {"checks": 20000, "balances": 800, 'read_ok': 8000, 'refused': 4000, 'hostile': 3000, 'damaged': 3000, 'valid': 2500}
ENV = {'ASAN_OPTIONS_EXTRA': ''}
KML = b'<kml><Placemark><name>x</name></Placemark></kml>'
INTS = [0, 1, 2, 3, 255, 256, 1023, 1024, 1025, 65534, 65535]
BIG = [0x7ffffffe, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x10000, 100000]


def data(rng):
    r = rng.random()
    if r < 0.3:
        return KML
    if r < 0.5:
        return b'<kml><Document>' + b'<Placemark><Point><coordinates>1,2</coordinates></Point></Placemark>' * rng.choice([1, 50, 2000]) + b'</Document></kml>'
    if r < 0.6:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 300])))
    if r < 0.7:
        return b'A' * rng.choice([1, 16383, 16384, 16385, 40000, 200000])
    if r < 0.75:
        return b''
    return gen.g_string(rng).encode('utf-8', 'ignore')


def name(rng, k):
    r = rng.random()
    if r < 0.4:
        return b'doc.kml' if k == 0 else b'd%d.kml' % k
    if r < 0.6:
        return b'files/img%d.png' % k
    if r < 0.7:
        return 'd\u00e9j\u00e0/\u6771%d.kml'.encode() % () if False else ('d\u00e9/\u6771%d.kml' % k).encode()
    if r < 0.75:
        return b'../up%d.kml' % k
    if r < 0.8:
        return b'/abs%d.kml' % k
    if r < 0.85:
        return b'D%d.KML' % k
    if r < 0.86:
        return rng.choice([b'.kml', b'a/.kml', b'kml', b'x.kml.txt', b'x.kmlx', b'.KML'])
    if r < 0.9:
        return b'x' * rng.choice([100, 200, 240]) + b'%d.kml' % k
    return b'n%d' % k


def case(w, rng, i):
    es = []
    many = rng.random() < 0.01
    for k in range(rng.choice([40, 150, 300, 700]) if many else rng.choice([1, 1, 2, 3, 6])):
        e = kmz.Entry(name(rng, k), b'%d' % k if many and rng.random() < 0.95 else data(rng), rng.choice([8, 8, 0]))
        e.descriptor = rng.random() < 0.15
        if rng.random() < 0.2:
            e.extra = struct.pack('<HH', 0x9999, 4) + b'abcd'
        if rng.random() < 0.2:
            e.lextra = struct.pack('<HH', 0x5455, 5) + b'abcde'
        if rng.random() < 0.1:
            e.comment = b'c' * rng.choice([1, 300])
        es.append(e)
    r = rng.random()
    kw = {}
    if rng.random() < 0.1:
        kw['comment'] = b'z' * rng.choice([1, 500, 65000])
    if rng.random() < 0.1:
        kw['gap'] = b'g' * 50
    damaged = None
    if r < 0.35:
        kind = 'valid'
        z = kmz.build(es, **kw)
    elif r < 0.7:
        kind = 'hostile'
        for _ in range(rng.choice([1, 1, 2, 4])):
            e = rng.choice(es)
            q = rng.random()
            if q < 0.3:
                f = rng.choice(kmz.CEN)
                e.cover[f] = rng.choice(INTS + BIG + [rng.getrandbits(32)])
            elif q < 0.5:
                f = rng.choice(kmz.LOC)
                e.lover[f] = rng.choice(INTS + BIG + [rng.getrandbits(32)])
            elif q < 0.6:
                e.name = rng.choice([b'', b'\0', b'a\0.kml', b'x' * 1023 + b'.kml', b'y' * 1020 + b'.kml', b'z' * 1024, b'w' * 65531 + b'.kml', b'q' * 2000 + b'.kml',
                                     b'\xff\xfe.kml', b'.kml', b'con:/..\\..\\x.kml', b'%s%n.kml'])
            elif q < 0.65:
                e.lname = rng.choice([b'', b'other.kml', b'x' * 3000])
            elif q < 0.7:
                e.extra = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 60000])))
            elif q < 0.75:
                es.append(es[0])
            else:
                kw.setdefault('eocd', {})[rng.choice(['disk', 'cddisk', 'n1', 'n2', 'size', 'off', 'clen'])] = rng.choice(INTS + BIG + [len(es) + 1, len(es) - 1])
        if rng.random() < 0.1:
            kw['prefix'] = rng.choice([b'PK\3\4', b'PK\3\4junk' * 10])
        z = kmz.build(es, **kw)
    else:
        kind = 'damaged'
        z = bytearray(kmz.build(es, **kw))
        for _ in range(rng.choice([1, 1, 3, 20])):
            q = rng.random()
            p = rng.randrange(max(1, len(z)))
            if not len(z):
                break
            if q < 0.5:
                z[p] = rng.choice([0, 255, z[p] ^ (1 << rng.randrange(8))])
            elif q < 0.65:
                del z[p:]
            elif q < 0.75:
                del z[p:p + rng.choice([1, 4, 40])]
            elif q < 0.85:
                z[p:p] = z[rng.randrange(len(z)):][:rng.choice([1, 30, 500])]
            else:
                t = max(0, len(z) - 22 - rng.randrange(60))
                z[t:t + 1] = bytes([rng.randrange(256)])
        if rng.random() < 0.8:
            z[:4] = b'PK\3\4'
        z = bytes(z)
    w.count(kind)
    names = []
    for e in es:
        if b'\0' not in e.name and e.name not in names:
            names.append(e.name)
    if len(names) > 8:
        names = names[:4] + rng.sample(names[4:-2], min(10, len(names) - 6)) + names[-2:]
    lim = rng.choice([None, 0, 1, 50, 1000, 16384])
    ops = [['kziskmz', z], ['kzopen', 'z', z]]
    if z[:4] != b'PK\3\4':
        o = w.do(ops + [['kfstring', 'k', z]])
        w.eq((o[0][0], o[1][0]), (b'0', b'null'), 'notzip', 'bytes without the ZIP signature are refused')
        return
    ops += [['kzlist', 'z'], ['kzreadkml', 'z'], ['kzsave', 'z'], ['kzread', 'z', b'no/such.kml']]
    at = len(ops)
    ops += [['kzread', 'z', n] for n in names]
    if lim is not None:
        ops += [['kzmax', 'z', str(lim)]]
        lat = len(ops)
        ops += [['kzread', 'z', n] for n in names]
    ops += [['kfstring', 'k', z], ['cachenew', 'kml', '10'], ['net', 'http://h/x.kmz', z], ['kmlfetchabs', 'http://h/x.kmz', 'q'],
            ['datafetchrel', 'http://h/a.kml', b'x.kmz/' + names[0] if names else b'x.kmz/a'], ['kzdrop', 'z']]
    o = w.do(ops, timeout=60)
    w.check(o[0][0] == b'1' and o[1][0] == b'ok', 'open', 'an archive with the signature is opened')
    w.eq(o[4][1], z, 'save', 'the bytes of the archive as saved')
    w.eq(o[5][0], b'0', 'missing', 'a file not in the archive')
    if o[3][0] != b'1':
        w.eq(o[3][1:], [b'', b'', b'0', b''], 'partial', 'a refused default document gives no data and no name')
    got = dict(zip(names, o[at:at + len(names)]))
    for n in names:
        if got[n][0] == b'1':
            w.count('read_ok')
            crc = zlib.crc32(got[n][1])
            if struct.pack('<I', crc) not in z:
                w.fail('integrity', '%r was returned with %d bytes whose CRC %08x is nowhere in the archive' % (n[:60], len(got[n][1]), crc))
            w.count('checks')
        else:
            w.count('refused')
            w.eq(got[n][1], b'', 'partial', 'a refused entry gives no data')
    if kind == 'valid':
        first = {}
        for e in es:
            first.setdefault(e.name, e)
        w.eq(o[2][1:], [e.name for e in es], 'toc', 'table of contents')
        for n, e in first.items():
            if n not in got:
                continue
            if not e.data:
                w.eq(got[n][0], b'0', 'empty', 'an empty entry cannot be read')
            else:
                w.eq((got[n][0], got[n][1]), (b'1', e.data), 'entry', 'entry %r' % n[:60])
        d = [e for e in es if e.name.endswith(b'.kml')]
        if d:
            want = first[d[0].name].data
            w.eq((o[3][0], o[3][1]), (b'1' if want else b'0', want), 'default', 'the default document is the first .kml')
            if want:
                w.eq(o[3][2], d[0].name, 'defaultpath', 'its path')
        else:
            w.eq(o[3][0], b'0', 'nodefault', 'no .kml in the archive')
    if lim is not None:
        for n, q in zip(names, o[lat:lat + len(names)]):
            if q[0] == b'1':
                w.check(len(q[1]) <= lim, 'limit', 'an entry of %d bytes was read with a limit of %d' % (len(q[1]), lim))
            if q[0] == b'0' and got[n][0] == b'1':
                w.check(len(got[n][1]) > lim, 'limit2', 'an entry of %d bytes was refused with a limit of %d' % (len(got[n][1]), lim))
    if i % 16 == 0:
        c35.balance(w, w.ops, 'kmz')
    w.seen(z[:4000] + z[-4000:])
    w.sample({'kind': kind, 'entries': [e.name[:40].decode('latin1') for e in es], 'bytes': len(z)})

