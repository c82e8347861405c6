"""URI, KMZ-URL, href and file-name functions agree with RFC 3986 and with each other on every input."""
import re
from . import gen
ID = 'C15'
RULE = ('URIs and references composed from random components (schemes, user info, hosts, IPv6, ports, dot segments, empty segments, encodings, '
        'queries, fragments), damaged ones and arbitrary bytes, file names over all bytes, KMZ URLs; each result compared with a direct '
        'implementation of RFC 3986; distinct by input')
CASES = {'quick': 300000, 'thorough': 1200000}
MIN = {'checks': 400000, 'resolved': 25000, 'dotted': 8000, 'invalid': 3000, 'files': 8000, 'kmz': 5000, 'hrefs': 10000}

UNRES = 'abcXYZ019-._~'
SUB = "!$&'()*+,;="
RE = re.compile(r'^(([A-Za-z][A-Za-z0-9+.\-]*):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$', re.S)


def seg(rng, colon=True):
    r = rng.random()
    if r < 0.18:
        return rng.choice(['.', '..', '..'])
    if r < 0.22:
        return ''
    if r < 0.5:
        return rng.choice(['a', 'b', 'c', 'dir', 'x.kml', 'y.kmz', 'z.png', 'doc.kml', '...', '.x', 'x.', '..x'])
    out = ''
    for _ in range(rng.choice([1, 2, 4, 8] * 60 + [500, 3000])):
        q = rng.random()
        out += rng.choice(UNRES) if q < 0.6 else rng.choice(SUB) if q < 0.75 else rng.choice(['%20', '%2F', '%41', '%7e', '%C3%A9', '%25']) if q < 0.9 else '@' if q < 0.95 or not colon else ':'
    return out


def qf(rng):
    return ''.join(rng.choice(UNRES + SUB + '/?:@') for _ in range(rng.choice([0, 1, 3, 9] * 60 + [2100])))


def path(rng, k=None):
    return '/'.join(seg(rng) for _ in range(k or rng.choice([1, 1, 2, 3, 4, 7])))


def authority(rng):
    h = rng.choice(['h', 'host.com', 'a.b.c', '1.2.3.4', 'H.COM', '[::1]', 'x-y', 'kmz.com', '%41b'])
    u = rng.choice(['u@', 'u:p@']) if rng.random() < 0.12 else ''
    p = rng.choice([':80', ':8080', ':']) if rng.random() < 0.2 else ''
    return u + h + p


def absolute(rng):
    s = rng.choice(['http', 'https', 'file', 'HTTP', 'x+y.z-1', 'ftp'])
    a = '' if s == 'file' else authority(rng)
    p = rng.choice(['', '/', '/' + path(rng), '/' + path(rng), '/' + path(rng)])
    if s == 'file' and not p:
        p = '/' + path(rng)
    if not a and p.startswith('//'):
        p = '/x' + p[1:]
    return s + '://' + a + p + tail(rng)


def tail(rng):
    return ('?' + qf(rng) if rng.random() < 0.25 else '') + ('#' + qf(rng) if rng.random() < 0.25 else '')


def relative(rng):
    r = rng.random()
    if r < 0.12:
        return absolute(rng)
    if r < 0.2:
        return '//' + authority(rng) + rng.choice(['', '/' + path(rng)]) + tail(rng)
    if r < 0.35:
        p = '/' + path(rng)
        return ('/.' + p if p.startswith('//') else p) + tail(rng)
    if r < 0.42:
        return tail(rng)
    p = path(rng)
    f = p.split('/')[0]
    if ':' in f or p.startswith('/'):
        p = './' + p
    return p + tail(rng)


def split(u):
    m = RE.match(u)
    return m.group(2), m.group(4), m.group(5), m.group(7), m.group(9)


def join(s, a, p, q, f):
    return (s + ':' if s is not None else '') + ('//' + a if a is not None else '') + p + ('?' + q if q is not None else '') + ('#' + f if f is not None else '')


def dots(p):
    """RFC 3986 5.2.4"""
    out = []
    while p:
        if p.startswith('../'):
            p = p[3:]
        elif p.startswith('./'):
            p = p[2:]
        elif p.startswith('/./'):
            p = p[2:]
        elif p == '/.':
            p = '/'
        elif p.startswith('/../'):
            p = p[3:]
            if out:
                out.pop()
        elif p == '/..':
            p = '/'
            if out:
                out.pop()
        elif p in ('.', '..'):
            p = ''
        else:
            k = p.find('/', 1)
            k = len(p) if k < 0 else k
            out.append(p[:k])
            p = p[k:]
    return ''.join(out)


def resolve(base, rel):
    bs, ba, bp, bq, bf = split(base)
    s, a, p, q, f = split(rel)
    if s is not None:
        return join(s, a, dots(p), q, f)
    if a is not None:
        return join(bs, a, dots(p), q, f)
    if p == '':
        return join(bs, ba, bp, q if q is not None else bq, f)
    if p.startswith('/'):
        return join(bs, ba, dots(p), q, f)
    if ba is not None and bp == '':
        m = '/' + p
    else:
        m = bp[:bp.rfind('/') + 1] + p
    return join(bs, ba, dots(m), q, f)


def fold(u):
    """differences of no meaning: an IPv6 address in full"""
    return u.replace('[0000:0000:0000:0000:0000:0000:0000:0001]', '[::1]')


def case(w, rng, i):
    ops, want = [], []

    def op(o, f):
        ops.append(o)
        want.append(f)
    r = rng.random()
    if r < 0.45:
        uris(w, rng, op)
    elif r < 0.6:
        kmz(w, rng, op)
    elif r < 0.75:
        files(w, rng, op)
    elif r < 0.9:
        hrefs(w, rng, op)
    else:
        junk(w, rng, op)
    o = w.do([[x if isinstance(x, bytes) else x.encode('utf-8', 'surrogateescape') for x in q] for q in ops])
    for q, f, res in zip(ops, want, o):
        f([x.decode('utf-8', 'surrogateescape') for x in res])
    w.seen(ops)
    w.sample({'ops': [[str(x) for x in q] for q in ops[:3]]})


def full(f, rng):
    """without empty segments, on which uriparser differs from the RFC"""
    while True:
        u = f(rng)
        p = split(u)[2]
        if '//' not in p:
            return u


def uris(w, rng, op):
    base = full(absolute, rng)
    rel = full(relative, rng)
    exp = resolve(base, rel)
    if '..' in rel or '/.' in rel:
        w.count('dotted')
    w.count('resolved')
    op(['uriresolve', base, rel], lambda o: w.eq((o[0], fold(o[1])), ('1', exp), 'resolve', '%r resolved against %r' % (rel, base)))
    s, a, p, q, f = split(base)
    host, port = '', ''
    h = a.split('@')[-1]
    m = re.match(r'^(\[.*\]|[^:]*)(:(.*))?$', h)
    host = m.group(1).strip('[]')
    port = m.group(3) or ''
    parts = [s, host, port, p[1:] if p.startswith('/') else p, q or '', f or '']
    op(['urisplit', base], lambda o: w.eq(o, ['1'] + parts, 'split', 'components of %r' % base))
    op(['urifrag', base], lambda o: w.eq(o, ['1', f] if f is not None else ['0', ''], 'fragment', 'fragment of %r' % base))
    op(['uripath', base], lambda o: w.eq(o, ['1', parts[3]] if p else ['0', ''], 'path', 'path of %r' % base))
    fetch = base.split('#')[0]
    op(['urifetch', base], lambda o: w.check(o[0] == '1' and o[1] == fetch, 'fetchable', 'fetchable part of %r is %r' % (base, o)))
    op(['uparse', base], lambda o: w.check(o[0] == 'ok' and o[1] == '1' and fold(o[2]) == base, 'text', 'text of %r is %r' % (base, o)))
    rel2 = full(relative, rng)
    exp2 = resolve(exp, rel2)
    op(['modelhref', base, rel, rel2], lambda o: w.eq((o[0], fold(o[1])), ('1', exp2), 'model', 'targetHref %r of geometry %r at %r' % (rel2, rel, base)))
    for u in (base, rel):
        op(['urinorm', u], lambda o, u=u: norm(w, u, o))
    bad = rng.choice(['', 'a/b', '/a', '//h/x', 'x?y'])
    op(['uriresolve', bad, rel], lambda o: w.eq(o[0], '0', 'base', 'a base without a scheme: %r' % bad))


def unreserved(u):
    return re.sub('%([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)) if chr(int(m.group(1), 16)) in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~' else '%' + m.group(1).upper(), u)


def norm(w, u, o):
    if o[0] != '1':
        w.fail('normalize', '%r is not normalized' % u)
    v = fold(o[1])
    if split(u)[0] is None and split(u)[1] is None and not split(v)[2]:
        return  # '.' becomes empty: a reference to the base itself in uriparser's reading
    if split(u)[0] is None and ':' in split(u)[2]:
        return  # uriparser drops the segment before 'a:b'
    # the same resource against any base
    for base in ('http://b/c/d/e/f/g/h/i/j/k?x', 'http://b/c;p'):
        a, b = split(resolve(base, u)), split(resolve(base, v))
        a = (a[0].lower(), unreserved(a[1] or '').lower(), dots(unreserved(a[2])) or '/', unreserved(a[3] or ''), unreserved(a[4] or ''))
        b = (b[0].lower(), unreserved(b[1] or '').lower(), dots(unreserved(b[2])) or '/', unreserved(b[3] or ''), unreserved(b[4] or ''))
        w.eq(b, a, 'normalmeaning', '%r normalized to %r' % (u, v))
    s, a, p, q, f = split(v)
    segs = p.split('/')
    while segs and segs[0] == '..':
        segs.pop(0)
    if s is None:
        return
    w.check('..' not in segs and '.' not in segs[1:], 'normaldots', lambda: '%r normalized to %r keeps dot segments' % (u, v))


def kmz(w, rng, op):
    w.count('kmz')
    u = 'http://h.com/' + ''.join(rng.choice(['a/', 'b/', 'dir/', 'x.kmzy/', 'x.kmz.kmzy/', 'k.kml/']) for _ in range(rng.choice([0, 1, 2])))
    if rng.random() < 0.75:
        z = u + rng.choice(['f', 'a.b', 'kmz', '', 'f.kmz', 'f.kmz.', 'f.kmzx']) + '.kmz'
        inner = rng.choice(['', '', 'doc.kml', 'a/b.png', 'x.kmz', 'x.kmz/y.kml', '../a', 'a%20b'])
        full = z + ('/' + inner if inner or rng.random() < 0.3 else '')
        op(['kmzsplit', full], lambda o: w.eq(o, ['1', z, inner], 'kmzsplit', 'the KMZ part of %r' % full))
    else:
        full = u + rng.choice(['doc.kml', 'a.kmzx', 'kmz', 'f.kmz.kml', 'f.kmz_1/x', 'KMZ', ''])
        op(['kmzsplit', full], lambda o: w.eq(o[0], '0', 'kmznone', '%r is not in a KMZ' % full))


def name(rng, win):
    out = ''
    for _ in range(rng.choice([1, 2, 5, 12])):
        q = rng.random()
        c = rng.choice('abcXYZ019._-~') if q < 0.5 else rng.choice(' %#?:;=&+@!$,\'()*[]{}|^`"<>') if q < 0.8 else chr(rng.randrange(1, 128)) if q < 0.9 else '\u00e9\u6771'[rng.randrange(2)]
        out += c if c not in '/\\' else '_'
    return out


def files(w, rng, op):
    w.count('files')
    f = '/'.join(name(rng, False) for _ in range(rng.choice([1, 2, 3])))
    if rng.random() < 0.6:
        f = '/' + f

    def got(o):
        w.eq(o[0], '1', 'file2uri', 'URI of file name %r' % f)
        u = o[1]
        w.check(all(33 <= ord(c) < 127 for c in u) and not set(u) & set('"<>^`{|}#?'), 'uriclean', lambda: 'URI %r of %r has characters a URI cannot have' % (u, f))
        w.eq(u.startswith('file://'), f.startswith('/'), 'urischeme', 'scheme of %r for %r' % (u, f))
        b = w.do([['uri2file', u.encode()], ['uparse', u.encode()]])
        w.eq(b[0], [b'1', f.encode('utf-8', 'surrogateescape')], 'filerot', 'file name %r back from %r' % (f, u))
    op(['file2uri', f], got)
    n = rng.choice(['C:\\', 'D:\\', '']) + '\\'.join(name(rng, True).replace(':', '_') for _ in range(rng.choice([1, 2, 3])))
    op(['winfile', n], lambda o: w.eq(o[:1] + o[2:], ['1', '1', n], 'winrot', 'Windows file name %r through %r' % (n, o)))
    a, b = (rng.choice(['', '/', 'a', '/a', 'a/', '/a/b', 'a\\b', 'a/b/', '.', '..', name(rng, False)]) for _ in range(2))
    op(['joinpaths', a, b], lambda o: w.eq(o[0], b if not a else a if not b else a + ('' if a.endswith('/') else '/') + b, 'join', 'joined %r and %r' % (a, b)))
    p = rng.choice(['', '/', '/a/', 'a/']) + rng.choice(['x', 'x/y', '/x', 'a/b/c', name(rng, False)])
    k = max(p.rfind('/'), p.rfind('\\'))
    d = '.' if k < 0 else p[:1] if k == 0 else p[:k]
    op(['splitpath', p], lambda o: w.eq(o[:2], [d, p[k + 1:]], 'splitpath', 'directory and file of %r' % p))


def hrefs(w, rng, op):
    w.count('hrefs')
    r = rng.random()
    if r < 0.5:
        s, n, p, f = '', '', rng.choice([path(rng), '/' + path(rng), '', name(rng, False), path(rng) + '?u=http://x/y', 'a:b/c', 'x.kmz/y.kml']), ''
        p = p.replace('#', '')
        h = p
        if p.startswith('://'):
            return
    else:
        s = rng.choice(['http', 'https', 'file', 'ftp', 'x+y', 'c', 'd2'])
        n = authority(rng) if s != 'file' else ''
        p = path(rng) if rng.random() < 0.8 else ''
        if rng.random() < 0.1:
            p += '?u=http://x/y'
        h = s + '://' + n + ('/' + p if p or rng.random() < 0.5 or not n else '')
    if '://' in h.split('?')[0][len(s) + 3 if s else 0:]:
        return
    f = ''
    if rng.random() < 0.4:
        f = rng.choice(['id', 'a#b', 'x/y', 'http://z/', name(rng, False)])
        h += '#' + f
    rel = '1' if not s and not n else '0'
    exp = [s, n, p, f, rel, '1' if rel == '1' and p else '0', '1' if f and rel == '1' and not p else '0']
    op(['href', h], lambda o: w.eq(o, exp, 'href', 'parts of the href %r' % h))
    m = list(exp[:4])
    sets = []
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.randrange(4)
        if rng.random() < 0.4:
            sets += ['SNPF'[k], '']
            m[k] = ''
        else:
            m[k] = rng.choice(['', 'http', 'h.com:80', 'a/b.kml', 'x y', '#', seg(rng)])
            sets += ['snpf'[k], m[k]]
    bit = lambda x: '1' if x else '0'
    want = m + [bit(not m[0] and not m[1]), bit(not m[0] and not m[1] and m[2]), bit(m[3] and not (m[0] or m[1] or m[2])), ''.join(bit(x) for x in m)]
    op(['hrefset', h] + sets, lambda o: w.eq(o, want, 'hrefset', 'parts of the href %r after %r' % (h, sets)))


def junk(w, rng, op):
    w.count('invalid')
    if rng.random() < 0.5:
        u = bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 5, 40, 300])))
    else:
        u = list(absolute(rng))
        for _ in range(rng.choice([1, 2, 4])):
            u.insert(rng.randrange(len(u) + 1), rng.choice(['%', '%g', '[', ']', ' ', '\\', '^', '\x7f', ':', '//', '#', '?', '@', '%4', '\n']))
        u = ''.join(u).encode()
    t = u.decode('latin1')
    bad = not t.isascii() or any(c in t for c in ' "<>\\^`{|}\x7f') or any(ord(c) < 33 for c in t) or re.search('%(?![0-9A-Fa-f]{2})', t) or t.count('#') > 1

    def no(o, what):
        if bad:
            w.eq(o[0] in ('0', 'null'), True, 'invalid', '%s took %r, which is no URI' % (what, u))
        else:
            w.count('checks')
    op(['uparse', u], lambda o: no(o, 'parsing'))
    op(['uriresolve', 'http://h/a', u], lambda o: no(o, 'resolving'))
    op(['uriresolve', u, 'x'], lambda o: no(o, 'resolving against'))
    op(['urinorm', u], lambda o: no(o, 'normalizing'))
    op(['urisplit', u], lambda o: no(o, 'splitting'))
    op(['urifetch', u], lambda o: no(o, 'the fetchable part'))
    for x in ('uri2file', 'file2uri', 'hrefnorm', 'kmzsplit', 'href', 'uripath', 'urifrag', 'winfile', 'splitpath'):
        op([x, u], lambda o: None)
    op(['modelhref', 'http://h/a', u, u], lambda o: no(o, 'resolving'))
