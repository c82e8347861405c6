"""The web service clients send exactly the requests asked for and hand on exactly what comes back."""
from . import gen
from .c29 import text, el, num, f, feature_text, clean, ATOM, KML
ID = 'C31'
RULE = ('random sessions (log in, headers, feeds, pages, uploads, downloads, searches, posts) of every service client over a scripted network which answers, fails, '
        'answers with other documents or broken ones; the recorded requests (method, URI, headers in order, body) and results compared with a model; distinct by session')
CASES = {'quick': 64000, 'thorough': 300000}
MIN = {'checks': 80000, 'requests': 30000, 'pages': 3000, 'failed': 3000, 'logins': 2500}
GET, POST = '2', '4'
SVC = {'maps': ('GOOGLE_MAPS_DATA_SCOPE', 'http://maps.google.com', '/maps/feeds/maps/default/full', '2.0', 'local'),
       'docs': ('GOOGLE_DOC_LIST_SCOPE', 'http://docs.google.com', '/feeds/default/private/full', '3.0', 'writely'),
       'picasa': ('GOOGLE_PICASA_WEB_SCOPE', 'http://picasaweb.google.com', '/data/feed/api/user/default', '2', 'lh2'),
       'sheets': ('GOOGLE_SPREADSHEETS_DATA_SCOPE', 'http://spreadsheets.google.com', '/feeds/spreadsheets/private/full', '3.0', 'wise')}
LOGIN = 'https://www.google.com/accounts/ClientLogin'
METHODS = ['OPTIONS', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'CONNECT']


def tok(rng):
    return ''.join(rng.choice('abcXYZ019-_.=/ &?') for _ in range(rng.choice([0, 1, 3, 12, 60])))


def logged(o):
    r, k = [], 0
    while k < len(o):
        n = int(o[k + 2])
        r.append((o[k].decode(), o[k + 1].decode('utf8', 'surrogateescape'), [x.decode('utf8', 'surrogateescape') for x in o[k + 3:k + 3 + n]],
                  None if o[k + 3 + n] == b'-' else o[k + 3 + n][1:]))
        k += 4 + n
    return r


class Session(object):
    def __init__(self, w, rng, kind):
        self.w, self.rng = w, rng
        self.app = tok(rng)
        self.hd = ['User-Agent: %s GData-C++/1.0' % self.app]
        ops = ['webnew', kind, self.app]
        if kind in SVC:
            env, self.scope, self.meta, ver, _ = SVC[kind]
            if rng.random() < 0.3:
                self.scope = rng.choice(['http://localhost:8080', 'https://x.org/a', ''])
                ops += [env, self.scope]
            self.hd.append('GData-Version: ' + ver)
        self.do([ops])
        for _ in range(rng.choice([0, 0, 0, 1, 3, 12])):
            n, v = rng.choice(['X-A', 'Accept', 'GData-Version', 'X-' + tok(rng)]), tok(rng)
            self.do([['webadd', n, v]])
            self.hd.append(n + ': ' + v)
        if rng.random() < 0.3:
            self.login()

    def do(self, ops):
        return self.w.do(ops)

    def answer(self, uri, body=None, junk=False):
        """Scripts an answer; says what the client gets: None if the request fails."""
        r = self.rng.random()
        if r < 0.12:
            self.w.count('failed')
            if r < 0.06:
                self.do([['webresp', uri, '0', '']])
                return None
            self.do([['webresp', uri, '0', 'partial ' + tok(self.rng)]])
            return None
        if body is None or junk and r < 0.2:
            body = self.rng.choice(['', 'HTTP/1.0 404 Not Found\n\n', '<kml><Placemark/></kml>', '<feed', '<entry %s><title>t</title></entry>' % ATOM, tok(self.rng)])
        self.do([['webresp', uri, '1', body]])
        return body

    def expect(self, reqs, what):
        got = logged(self.do([['weblog']])[0])
        self.w.count('requests', len(got))
        self.w.eq([(m, u, b is None) for m, u, h, b in got], [(m, u, b is None) for m, u, h, b in reqs], 'requests', '%s: method and URI of each request' % what)
        for g, e in zip(got, reqs):
            self.w.eq(g[2], self.hd + e[2], 'headers', '%s: headers of %s %s' % (what, e[0], e[1]))
            if isinstance(e[3], bytes):
                self.w.eq(g[3], e[3], 'body', '%s: body sent to %s' % (what, e[1]))
        return got

    def login(self):
        rng, w = self.rng, self.w
        w.count('logins')
        svc, em, pw, t = tok(rng), tok(rng), tok(rng), tok(rng).replace('=', '')
        body = self.answer(LOGIN, rng.choice(['SID=x\nLSID=y\nAuth=%s\n', 'Auth=%s', 'Auth=%s\nAuth=second\n', 'Auth=%s\nSID=z\n', 'Auth=%s\n', 'SID=none\n', '']).replace('%s', t))
        ok = body is not None and 'Auth=' in body
        o = self.do([['weblogin', svc, em, pw]])[0]
        if ok:
            self.tok = t
        w.eq(o[:1], [b'1' if ok else b'0'], 'login', 'log in answered by %r' % body)
        data = 'Email=%s&Passwd=%s&accountType=HOSTED_OR_GOOGLE&source=%s&service=%s' % (em, pw, self.app, svc)
        self.expect([(POST, LOGIN, [], data.encode())], 'log in')
        if ok:
            w.eq(o[1], t.encode(), 'token', 'token of %r' % body)
            self.hd.append('Authorization: GoogleLogin auth=' + t)


def atom_feed(rng, nxt=None, src=False):
    feats, body = [], ''
    for k in range(rng.choice([0, 1, 2, 5] * 8 + [60])):
        x, _, _ = feature_text(rng, k)
        has = rng.random() < 0.8
        if has:
            feats.append(x)
        body += '<entry>%s%s<content type="application/vnd.google-earth.kml+xml">%s</content></entry>' % (el('id', 'i%d' % rng.randrange(3)) if rng.random() < 0.5 else '', el('title', text(rng, 12)), x.replace('>', ' %s>' % KML, 1) if has else '')
    links = [('http://h/self', 'self')] + ([(nxt, 'next')] if nxt else []) + [('http://h/prev', 'previous')]
    rng.shuffle(links)
    return '<feed %s>%s%s</feed>' % (ATOM, ''.join('<link href="%s" rel="%s"/>' % (gen.esc_attr(a), b) for a, b in links), body), feats


def is_feed(body):
    return body is not None and body.startswith('<feed ')


def same_as(s, slot, body, what):
    o = s.do([['parse', 'ref', body, 'atom'], ['dump', 'ref'], ['dump', slot]])
    s.w.eq(o[2], o[1], 'result', what)


def meta(s, kind):
    u = s.scope + s.meta
    doc, _ = atom_feed(s.rng)
    b = s.answer(u, doc, True)
    o = s.do([['webmeta', 'm']])[0]
    s.expect([(GET, u, [], None)] * 2, 'meta feed of ' + kind)
    s.w.eq(o[:2], [b'ok' if is_feed(b) else b'null', b'0' if b is None else b'1'], 'meta', 'meta feed answered by %r' % b)
    if b is not None:
        s.w.eq(o[2], b.encode(), 'metaxml', 'text of the meta feed')
    if is_feed(b):
        same_as(s, 'm', b, 'the meta feed')


def case(w, rng, i):
    r = rng.random()
    if r < 0.08:
        return bare(w, rng)
    if i == 0:
        w.eq([x.decode() for x in w.do([['webconst']])[0]], sum(([SVC[k][4], SVC[k][2]] for k in ('maps', 'docs', 'picasa', 'sheets')), []), 'names', 'service names and feeds')
        w.eq(w.do([['webnull']])[0], [b'0'], 'null', 'a client without HTTP client')
    kind = rng.choice(['maps', 'maps', 'maps', 'docs', 'picasa', 'sheets'])
    s = Session(w, rng, kind)
    for _ in range(gen.many(rng, [1, 2, 4], (30,), 0.01)):
        if rng.random() < 0.2:
            meta(s, kind)
        elif rng.random() < 0.05:
            s.login()
        elif kind == 'docs':
            u, d, m = s.scope + s.meta, gen.g_string(rng) + tok(rng), tok(rng)
            b = s.answer(u)
            o = s.do([['webupload', d, m]])[0]
            s.expect([(POST, u, ['Content-Type: ' + m], d.encode('utf8', 'surrogateescape'))], 'upload')
            s.w.eq(o[:1] + (o[1:] if b is not None else []), [b'1', b.encode()] if b is not None else [b'0'], 'upload', 'upload answered by %r' % b)
        elif kind == 'sheets':
            rid, fmt = rng.choice([None, tok(rng).strip().replace('&', '') or 'k1']), tok(rng)
            x = '<entry %s><title>t</title>%s</entry>' % (ATOM, '<gd:resourceId xmlns:gd="http://schemas.google.com/g/2005">%s</gd:resourceId>' % rid if rid else '')
            u = s.scope + '/feeds/download/spreadsheets/Export?key=%s&exportFormat=%s' % (rid, fmt)
            b = s.answer(u)
            o = s.do([['parse', 'e', x, 'atom'], ['webdownload', 'e', fmt]])[1]
            s.expect([(GET, u, [], None)] if rid else [], 'download of %r' % x)
            ok = rid and b is not None
            s.w.eq(o[:1] + (o[1:] if ok else []), [b'1', b.encode()] if ok else [b'0'], 'download', 'download answered by %r' % b)
        elif kind == 'maps':
            rng.choice([uris, feedby, pages, pages, create, addf, search, post, post, nextfeed])(s)
        w.count('sessions')
    w.seen(repr(w.ops))


def entry(s):
    rng = s.rng
    src = rng.choice([None, 'http://h/features/u/m/full', 'http://h/f/%d/full?x=%s' % (rng.randrange(9), 'y'), 'nopath', 'a/b', '/', 'full/', ''])
    links = [(rng.choice(['http://maps?msid=%d' % j, 'u']), rng.choice(['alternate', 'self', 'xalternate', 'alternate '])) for j in range(gen.many(rng, [0, 1, 3], (30,), 0.01))]
    x = '<entry %s><title>t</title>%s<content%s/></entry>' % (ATOM, ''.join('<link href="%s" rel="%s"/>' % l for l in links), '' if src is None else ' src="%s"' % src)
    if rng.random() < 0.1:
        src, x = None, x.replace('<content', '<xcontent')
    return x, src, next((a for a, b in links if b.endswith('alternate')), None)


def uris(s):
    x, src, alt = entry(s)
    o = s.do([['parse', 'e', x, 'atom'], ['webfeeduri', 'e']])[1]
    search = src[:src.rindex('/') + 1] + 'snippet' if src and '/' in src else None
    exp = []
    for v in (src, search, None if alt is None else alt + '&output=kml'):
        exp += ['0', ''] if v is None else ['1', v]
    exp += ['0' if v is None else '1' for v in (src, search, alt)]
    s.w.eq([q.decode() for q in o], exp, 'uris', 'URIs of %r' % x)
    s.expect([], 'URIs of an entry')


def feedby(s):
    u = 'http://h/feed/' + tok(s.rng)
    doc, _ = atom_feed(s.rng)
    b = s.answer(u, doc, True)
    o = s.do([['webparse' if s.rng.random() < 0.5 else 'webfeed', u, 'q']])[0]
    s.expect([(GET, u, [], None)], 'feature feed')
    s.w.eq(o, [b'ok' if is_feed(b) else b'null'], 'feed', 'feed answered by %r' % b)
    if is_feed(b):
        same_as(s, 'q', b, 'the feature feed')


def nextfeed(s):
    nxt = s.rng.choice([None, 'http://h/n%d' % s.rng.randrange(99), 'http://h/n?a=b&c'])
    doc, _ = atom_feed(s.rng, nxt)
    b = None
    if nxt:
        d2, _ = atom_feed(s.rng)
        b = s.answer(nxt, d2, True)
    o = s.do([['parse', 'f', doc, 'atom'], ['webnext', 'f', 'n']])[1]
    s.expect([(GET, nxt, [], None)] if nxt else [], 'next feed')
    s.w.eq(o, [b'ok' if is_feed(b) else b'null'], 'next', 'next feed answered by %r' % b)
    if is_feed(b):
        same_as(s, 'n', b, 'the next feed')


def pages(s):
    """A document of a map holds the features of all its pages, each page asked for once."""
    rng = s.rng
    n = rng.choice([1, 1, 2, 3, 6])
    us = ['http://h/page/%d/%d' % (k, rng.randrange(1000)) for k in range(n)]
    first, feats = atom_feed(rng, us[1] if n > 1 else None)
    reqs, on = [], n > 1
    for k in range(1, n):
        doc, fs = atom_feed(rng, us[k + 1] if k + 1 < n else None)
        b = s.answer(us[k], doc, True)
        if on:
            reqs.append((GET, us[k], [], None))
            s.w.count('pages')
            if is_feed(b):
                feats += fs
            else:
                on = False
    o = s.do([['parse', 'f', first, 'atom'], ['dump', 'f'], ['webmapdoc', 'f', 'd'], ['ser', 'd', 'raw'], ['dump', 'f'], ['parse', 'x', '<Document>%s</Document>' % ''.join(feats), 'plain'], ['dump', 'x'], ['dump', 'd']])
    s.expect(reqs, 'pages of a map')
    s.w.eq(o[4], o[1], 'unchanged', 'first page after the document was made')
    q = s.do([['parse', 'y', o[3][0], 'plain'], ['dump', 'y']])
    s.w.eq(clean(q[1]), clean(o[6]), 'mapdoc', 'document of %d pages' % n)


def create(s):
    t, d = text(s.rng), text(s.rng)
    u = s.scope + s.meta
    b = s.answer(u)
    o = s.do([['webcreate', t, d]])[0]
    g = s.expect([(POST, u, ['Content-Type: application/atom+xml'], True)], 'create map')
    q = s.do([['parse', 'e', g[0][3], 'atom'], ['get', 'e', 'title'], ['get', 'e', 'summary']])
    s.w.eq((q[0][0], q[1][0], q[2][0]), (b'ok', t.encode(), d.encode()), 'mapentry', 'entry of a new map: %r' % g[0][3])
    s.w.eq(o[:1] + (o[1:] if b is not None else []), [b'1', b.encode()] if b is not None else [b'0'], 'create', 'create answered by %r' % b)


def addf(s):
    x, n, d = feature_text(s.rng, 1)
    u = 'http://h/post/' + tok(s.rng)
    b = s.answer(u)
    o = s.do([['parse', 'p', x, 'plain'], ['dump', 'p'], ['webaddf', u, 'p'], ['dump', 'p'], ['get', 'p', 'name'], ['get', 'p', 'description']])
    s.w.eq(o[3], o[1], 'unchanged', 'feature after it was added')
    g = s.expect([(POST, u, ['Content-Type: application/atom+xml'], True)], 'add feature')
    q = s.do([['parse', 'e', g[0][3], 'atom'], ['get', 'e', 'title'], ['get', 'e', 'summary'], ['atomgetfeature', 'e', 'g'], ['dump', 'g'], ['cget', 'e', 'content', 'k'], ['get', 'k', 'type']])
    s.w.eq((q[0][0], q[1][0], q[2][0]), (b'ok', o[4][0], o[5][0]), 'entry', 'entry posted for %r: %r' % (x, g[0][3]))
    s.w.eq(clean(q[4]), clean(o[1]), 'posted', 'feature posted for %r: %r' % (x, g[0][3]))
    s.w.eq(q[6], [b'application/vnd.google-earth.kml+xml'], 'contenttype', 'type of the content posted: %r' % g[0][3])
    s.w.eq(o[2][:1] + (o[2][1:] if b is not None else []), [b'1', b.encode()] if b is not None else [b'0'], 'add', 'add answered by %r' % b)


def search(s):
    x, src, _ = entry(s)
    n, so, e, we = num(s.rng, -90, 90), num(s.rng, -90, 90), num(s.rng), num(s.rng)
    base = src[:src.rindex('/') + 1] + 'snippet' if src and '/' in src else None
    u = b = None
    if base:
        u = base + '?box=%s,%s,%s,%s' % (f(we), f(so), f(e), f(n))
        doc, _ = atom_feed(s.rng)
        b = s.answer(u, doc, True)
    o = s.do([['parse', 'e', x, 'atom'], ['websearch', 'e', repr(n), repr(so), repr(e), repr(we), 'q']])[1]
    s.expect([(GET, u, [], None)] if u else [], 'search in %r' % x)
    s.w.eq(o, [b'ok' if is_feed(b) else b'null'], 'search', 'search answered by %r' % b)
    if is_feed(b):
        same_as(s, 'q', b, 'the search feed')


def post(s):
    kind, t, d = s.rng.choice(['csv', 'kml']), tok(s.rng), gen.g_string(s.rng)
    u = s.scope + s.meta
    ent = '<entry %s>%s</entry>' % (ATOM, el('title', text(s.rng)))
    b = s.answer(u, ent, True)
    o = s.do([['webpost', kind, t, d, 'q']])[0]
    mt = {'csv': 'text/csv', 'kml': 'application/vnd.google-earth.kml+xml'}[kind]
    s.expect([(POST, u, ['Content-Type: ' + mt, 'Slug: ' + t], d.encode('utf8', 'surrogateescape'))], 'post of ' + kind)
    ok = b is not None and b.startswith('<entry ')
    s.w.eq(o[0], b'ok' if ok else b'null', 'post', 'post answered by %r' % b)
    if kind == 'csv' and b is not None:
        s.w.eq(o[1], b.encode(), 'posterrors', 'the answer as handed on')
    if ok:
        same_as(s, 'q', b, 'the entry of the posted map')


def bare(w, rng):
    app, hs = tok(rng), []
    w.do([['webdef', app]])
    hs.append(('User-Agent', app + ' GData-C++/1.0'))
    for _ in range(rng.choice([0, 1, 3])):
        hs.append((rng.choice(['A', 'B', 'User-Agent', tok(rng)]), tok(rng)))
        w.do([['webadd', hs[-1][0], hs[-1][1]]])
    n = rng.choice(['A', 'B', 'User-Agent', 'a', hs[-1][0]])
    m = [v for k, v in hs if k == n]
    w.eq(w.do([['webfind', n]])[0], [b'1', m[0].encode(), b'1'] if m else [b'0', b'?', b'0'], 'find', 'header %r of %r' % (n, hs))
    k, u = rng.randrange(1, 9), 'http://h/' + tok(rng)
    rh = [(tok(rng), tok(rng)) for _ in range(rng.choice([0, 1, 3, 20]))]
    o = w.do([['websend', str(k), u] + [x for p in rh for x in p]])[0]
    fmt = lambda method, hh: '%s %s\n%s' % (method, u, ''.join('%s: %s\n' % p for p in hh))
    w.eq([x.decode() for x in o], ['1', fmt(METHODS[k - 1], hs + rh), '1', fmt('GET', hs)], 'echo', 'request made of %r %r' % (hs, rh))
    w.count('requests', 2)
    w.seen((app, tuple(hs), k, u))
