"""A KMZ written by the library holds exactly what was given, in order, nothing from outside the base, or the failure is reported."""
import io
import os
import posixpath
import zipfile
from . import gen
ID = 'C12'
RULE = ('archives created entry by entry and by packaging KML with links of every form (nested, dotted, above the base, absolute, fragments, '
        'repeated, missing, encoded) from trees of files with secrets around them, with and without file-size faults; read back by the library '
        'and by an independent ZIP reader; distinct by entries and links')
CASES = {'quick': 60000, 'thorough': 200000}
MIN = {'checks': 60000, 'entries': 15000, 'packaged': 8000, 'manylinks': 300, 'notkml': 100, 'nofiles': 60, 'refused': 5000, 'faults': 800, 'fault_reported': 300, 'fault_written': 100}
SEG = ['a', 'b', 'sub', 'x.png', 'y.png', 'd\u00e9.png', 'sp ace.png', 'l.kml', '.', '..', '..', 'c%20d.png', 'plus+.png', 'z.kmz', '.hid', '...']
FILES = ['x.png', 'y.png', 'X.png', 'x.PNG', 'A/x.png', 'y.pn', 'a/x.png', 'a/b/x.png', 'a/b/sub/y.png', 'sub/d\u00e9.png', 'd\u00e9.png', 'sp ace.png', 'a/sp ace.png', 'sub/l.kml',
         'l.kml', 'c%20d.png', 'plus+.png', 'big.png', 'one.png', '.hid', 'a/.hid', '.../x.png', 'doc.kml', 'z.kmz', 'empty.png']

MANY = ['m/%d.png' % k for k in range(150)]


def put(path, data):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, 'wb') as f:
        f.write(data)


def setup(w):
    root = os.path.join(w.scratch, 'w')
    w.base = os.path.join(root, 'up', 'base')
    w.files = {}
    for f in FILES + MANY:
        d = ('IN:' + f).encode()
        if f == 'big.png':
            d = bytes((i * 7919 >> 3) & 255 for i in range(300000))
        if f == 'one.png':
            d = b'\0'
        if f == 'empty.png':
            d = b''
        w.files[f] = d
        put(os.path.join(w.base, f), d)
    for f in ['x.png', 'y.png', 'l.kml', 'a/x.png', '.hid', 'd\u00e9.png', 'sub/l.kml', 'baseball/x.png', 'basex.png', 'etc/passwd']:
        for d in (root, os.path.join(root, 'up')):
            put(os.path.join(d, f), b'SECRET:' + f.encode())
    w.n = 0


def ziplist(path):
    with zipfile.ZipFile(path) as z:
        return [(i.filename if i.flag_bits & 0x800 else i.filename.encode('cp437').decode('utf-8'), z.open(i).read()) for i in z.infolist()]


def norm(p):
    """dot segments removed; None if it leads above"""
    if p[:1] == '/':
        return posixpath.normpath(p)
    out = []
    for s in p.split('/'):
        if s == '.':
            continue
        if s == '..':
            if not out:
                return None
            out.pop()
        else:
            out.append(s)
    return '/'.join(out) + ('/' if out and s in ('.', '..') else '')


def link(rng):
    """(href, exact) - the second says that the oracle knows the outcome"""
    r = rng.random()
    if r < 0.45:
        f = rng.choice(FILES)
        if rng.random() < 0.3:
            f = rng.choice(['./', 'a/../', 'nodir/../', 'a/b/../../', 'sub/./../']) + f
        ok = True
    elif r < 0.75:
        f = '/'.join(rng.choice(SEG) for _ in range(rng.choice([1, 2, 3, 4, 6])))
        ok = True
    elif r < 0.85:
        f = rng.choice(['../', '../../', 'a/../../', './../', '../base/', '../baseball/', '..//', 'a/b/../../../', '../../../../../../../../../../']) + \
            rng.choice(['x.png', 'l.kml', '.hid', 'etc/passwd', 'a/x.png'])
        ok = True
    elif r < 0.92:
        f = rng.choice(['/x.png', '/etc/passwd', '/../x.png', '/a/../../x.png', '/'])
        ok = True
    else:
        f = rng.choice(['a//../../x.png', '%2e%2e/x.png', '%2E%2e/x.png', '..%2fx.png', 'a\\..\\..\\x.png', 'a/..\\..\\..\\x.png', 'a\\..\\b/../../../x.png', '..\\x.png', '\\x.png', 'a/..\\../x.png', 'x.png?q=../y', '?x', '..',
                        '.', 'a/..', 'a', 'a/', 'c:/x.png', 'c:..\\x.png', '//x.png', '///x.png', 'a/%2e%2e/%2e%2e/x.png', '.%2e/x.png', '%00/x.png',
                        'a/.%2E/../x.png', '....//x.png', '..;/x.png', ' ../x.png', '../x.png ', '\u2025/x.png', '//../x.png', 'a///../../../../x.png'])
        ok = False
    if rng.random() < 0.15:
        f += '#' + rng.choice(['s', 'a/../b', '../../x.png', ''])
    if f.startswith('#'):
        ok = False
    return f, ok


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;')


def case(w, rng, i):
    w.n += 1
    out = os.path.join(w.scratch, 'o%d.kmz' % (w.n % 3))
    if os.path.exists(out):
        if rng.random() < 0.5:
            os.unlink(out)   # else overwritten
    r = rng.random()
    if r < 0.4:
        create(w, rng, out)
    elif r < 0.9:
        package(w, rng, out, None)
    else:
        w.count('faults')
        q = rng.random()
        if q < 0.05:
            notkml(w, rng, out)
        elif q < 0.2:
            nowhere(w, rng, rng.choice(['/dev/full', w.scratch, w.scratch + '/no/dir/x.kmz', '']))
        else:
            package(w, rng, out, rng.choice([0, 1, 22, 30, 100, 200, 300, 500, 800, 1000, 1500, 2000, 4095, 4096, 4097, 20000, 65536, 100000]) + rng.randrange(40))


def data(rng):
    r = rng.random()
    if r < 0.3:
        return b'<kml/>'
    if r < 0.5:
        return bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 2, 255, 4096])))
    if r < 0.6:
        return b'\0' * rng.choice([1, 65535, 65536, 300000])
    if r < 0.65:
        return bytes(rng.getrandbits(8) for _ in range(16000)) * rng.choice([1, 5, 20])
    if r < 0.7:
        return b''
    return gen.g_string(rng).encode('utf-8', 'ignore')


def create(w, rng, out):
    names = ['doc.kml', 'a.kml', 'files/a.png', 'd\u00e9.kml', 'x' * 250, 'sub/doc.kml', 'A.KML', 'Doc.kml', 'a b', 'x.kml/y', '.kml', 'n', 'a/../b', 'b/..', 'c:x', 'a\\b']
    bad = ['/x.kml', '/', '\\x', '..', '../x.kml', '..\\x', '..x', '//x']
    ops = [['kzcreate', 'z', out]]
    ent = []
    many = rng.random() < 0.03
    for k in range(rng.choice([50, 150, 300]) if many else rng.choice([1, 2, 3, 5, 9])):
        n = '%s%d' % (rng.choice(['f', 'a/', 'p.']), k) if many else rng.choice(bad) if rng.random() < 0.25 else rng.choice(names) if rng.random() < 0.7 else 'e%d.kml' % k
        ent.append((n, b'%d' % k if many else data(rng)))
        ops.append(['kzadd', 'z', ent[-1][1], n.encode()])
    o = w.do(ops + [['kzdrop', 'z']])
    w.eq(o[0][0], b'ok', 'create', 'creating an archive in a writable place')
    good = []
    for (n, d), q in zip(ent, o[1:]):
        ok = n[:1] not in ('/', '\\') and n[:2] != '..'
        w.eq(q[0], b'1' if ok else b'0', 'add', 'adding %r' % n)
        if ok:
            good.append((n, d))
        else:
            w.count('refused')
    w.eq(ziplist(out), good, 'zip', 'the archive as an independent reader sees it')
    with open(out, 'rb') as f:
        raw = f.read()
    if not good:
        return
    first = {}
    for n, d in good:
        first.setdefault(n, d)
    o = w.do([['kzopenfile', 'z', out], ['kzlist', 'z'], ['kzsave', 'z'], ['kzreadkml', 'z']] + [['kzread', 'z', n.encode()] for n in first] + [['kzadd', 'z', b'x', b'new.kml'], ['kzdrop', 'z']])
    w.eq(o[0][0], b'ok', 'reopen', 'the archive opens')
    w.eq(o[1][1:], [n.encode() for n, d in good], 'toc', 'table of contents in the order added')
    w.eq(o[2][1], raw, 'save', 'saved bytes')
    k = [n for n, d in good if n.endswith('.kml')]
    if k:
        w.eq(o[3][:3], [b'1', first[k[0]], k[0].encode()] if first[k[0]] else [b'0', b'', b''], 'default', 'the default document')
    else:
        w.eq(o[3][0], b'0', 'nodefault', 'no default document')
    for (n, d), q in zip(first.items(), o[4:]):
        w.eq((q[0], q[1]), (b'1', d) if d else (b'0', b''), 'entry', 'entry %r' % n)
        w.count('entries')
    w.eq(o[4 + len(first)][0], b'0', 'addread', 'an archive opened for reading takes no entries')
    w.seen([(n, len(d)) for n, d in ent])


def nowhere(w, rng, out):
    kml = b'<kml><Placemark><name>x</name></Placemark></kml>'
    put(os.path.join(w.scratch, 'p.kml'), kml)
    o = w.do([['parse', 'r', kml, 'plain'], ['kfurl', 'k', kml, w.base + '/m.kml'], ['kzwrite', out, kml], ['kzfromel', 'r', w.base, out], ['kzfromkf', 'k', out],
              ['kzfrompath', os.path.join(w.scratch, 'p.kml'), out]])
    for q in o[2:]:
        w.eq(q[0], b'0', 'fault', 'creating a KMZ at %r' % out)
        w.count('fault_reported')


def notkml(w, rng, out):
    """What is no KML makes no package, and leaves what is there alone."""
    bad = rng.choice([b'', b'x', b'<kml>', b'<foo/>', b'PK\3\4', b'<kml><Document></kml>', b'<kml/><kml/>', b'\xff\xfe', data(rng) + b'<', b'<Placemark><name>&u;</name></Placemark>'])
    p = os.path.join(w.scratch, 'p.kml')
    put(p, bad)
    had = open(out, 'rb').read() if os.path.exists(out) else None
    o = w.do([['kzfrompath', p, out], ['kzfrompath', p + '.missing', out]])
    w.eq([q[0] for q in o], [b'0', b'0'], 'notkml', 'packaging a file of %r, and one which is not there' % bad[:60])
    w.eq(open(out, 'rb').read() if os.path.exists(out) else None, had, 'notkml', 'what was at the target before')
    w.count('notkml')
    if rng.random() < 0.5:       # nor is anything made, or lost, where no file can be opened
        put(p, b'<kml><Document><name>n</name></Document></kml>')
        o = w.do([['parse', 'r', '<kml/>', 'plain'], ['kfurl', 'k', '<kml/>', w.base], ['kzwrite', out + '.x', b'x'], ['kzopenfile', 'y', out + '.x'], ['fdlimit', '0'],
                  ['kzfrompath', p, out], ['kzfromel', 'r', w.base, out], ['kzfromkf', 'k', out], ['kzwrite', out, b'<kml/>'], ['kzcreate', 'z', out], ['kzopenfile', 'z', out + '.x'],
                  ['fdlimit', 'max'], ['kzdrop', 'y'], ['kzdrop', 'z']])
        os.unlink(out + '.x')
        w.eq([q[0] for q in o[2:11]], [b'1', b'ok', b'0', b'0', b'0', b'0', b'0', b'null', b'null'], 'nofiles', 'archives written and opened where no file can be opened')
        w.eq(open(out, 'rb').read() if os.path.exists(out) else None, had, 'nofiles', 'what was at the target before')
        w.count('nofiles')


def package(w, rng, out, limit):
    links = [link(rng) for _ in range(rng.choice([0, 1, 2, 4, 8] * 6 + [60]))]
    if rng.random() < 0.02:
        links = [(f, True) for f in rng.sample(MANY, rng.choice([20, 40, 70, 140]))]
        links += [rng.choice(links) for _ in range(30)]
        rng.shuffle(links)
        w.count('manylinks')
    if rng.random() < 0.3 and links:
        links += [rng.choice(links) for _ in range(2)]
    feats = []
    for l, ok in links:
        h = esc(l)
        feats.append(rng.choice([
            '<NetworkLink><Link><href>%s</href></Link></NetworkLink>', '<GroundOverlay><Icon><href>%s</href></Icon></GroundOverlay>',
            '<Placemark><Style><IconStyle><Icon><href>%s</href></Icon></IconStyle></Style></Placemark>', '<Placemark><styleUrl>%s</styleUrl></Placemark>',
            '<Folder><ScreenOverlay><Icon><href>%s</href></Icon></ScreenOverlay></Folder>']) % h)
        if rng.random() < 0.1:
            feats.append('<NetworkLink><Link><href>http://h.com/x.png</href></Link></NetworkLink>')
    kml = ('<kml><Document>%s</Document></kml>' % ''.join(feats)).encode()
    way = rng.choice(['el', 'kf', 'path', 'list', 'write'])
    base = w.base + rng.choice(['', '/'])
    main = os.path.join(w.base, 'main-%d.kml' % os.getpid())
    if way == 'path':
        put(main, kml)
    fs = [['fsize', str(limit)]] if limit is not None else []
    un = [['fsize', 'max']] if limit is not None else []
    head = [['parse', 'r', kml, 'plain'], ['ser', 'r', 'pretty'], ['kfurl', 'k', kml, base]]
    if way == 'el':
        act = [['kzfromel', 'r', base, out]]
    elif way == 'kf':
        act = [['kzfromkf', 'k', out]]
    elif way == 'path':
        act = [['kzfrompath', main, out]]
    elif way == 'write':
        act = [['kzwrite', out, kml]]
    else:
        act = [['kzcreate', 'z', out], ['kzaddlist', 'z', base] + [l.encode() for l, ok in links], ['kzdrop', 'z']]
    o = w.do(head + fs + act + un)
    if way == 'path':
        os.unlink(main)
    pretty = o[1][0]
    res = o[len(head) + len(fs):]
    want = []
    errs = 0
    seen = set()
    loose = not all(ok for l, ok in links)
    for l, ok in links:
        n = norm(l.split('#')[0])
        if n is None or n[:2] == '..':
            errs += 1
            continue
        if n in seen:
            continue
        seen.add(n)
        if n[:1] == '/' or n not in w.files:
            errs += 1
        else:
            want.append(n)
    if limit is not None and way != 'list':
        if res[0][0] == b'0':
            w.count('fault_reported')
            return
        w.count('fault_written')
    elif limit is not None:
        return
    elif way != 'list':
        w.eq(res[0][0], b'1', 'package', 'creating a KMZ of KML')
    got = ziplist(out)
    w.check(zipfile.ZipFile(out).testzip() is None, 'testzip', 'an independent reader finds the archive intact')
    if way == 'list':
        if not loose:
            w.eq(int(res[1][0]), errs, 'errors', 'number of errors for %r' % links)
            w.eq(got, [(n, w.files[n]) for n in want], 'list', 'entries for %r' % links)
    else:
        w.check(got[:1] == [('doc.kml', kml if way == 'write' else pretty)], 'doc', 'doc.kml is first and is the KML given')
        got = got[1:]
        if way == 'write':
            w.eq(got, [], 'write', 'nothing else')
        elif not loose:
            w.eq([e for e in got if e[0] != 'doc.kml'], [(n, w.files[n]) for n in want if n != 'doc.kml'], 'linked', 'the linked files for %r' % links)
        o = w.do([['kzopenfile', 'z', out], ['kzreadkml', 'z'], ['kzdrop', 'z']])
        w.eq(o[1][:3], [b'1', kml if way == 'write' else pretty, b'doc.kml'], 'default', 'the default document is the KML given')
    for n, d in got:
        w.check(not d.startswith(b'SECRET'), 'contain', 'a file outside the base was packaged as %r' % n)
        w.check(n[:1] not in ('/', '\\') and '..' not in n.split('/'), 'contain2', 'an entry leads outside: %r' % n)
        w.check(n in w.files and w.files[n] == d, 'contain3', 'entry %r is not a file below the base' % n)
        w.count('packaged')
    w.count('refused', errs)
    w.seen([way, [l for l, ok in links], limit])
    w.sample({'way': way, 'links': [l for l, ok in links], 'limit': limit})
