"""What is documented as optional may be left out, what is documented to append keeps what was there, and nothing in gives nothing out."""
import io
import zipfile
from . import c15, gen, mutate
ID = 'C34'
RULE = ('every function with an optional output, called with and without it, every function that appends, called on a list that holds something, and every '
        'function given no element, over random documents (sound and damaged), URIs, file names, archives and lists of features; distinct by input')
CASES = {'quick': 48000, 'thorough': 600000}
MIN = {'checks': 250000, 'documents': 6000, 'broken': 800, 'uris': 4000, 'archives': 1500, 'features': 1500}


def case(w, rng, i):
    r = rng.random()
    if r < 0.55:
        document(w, rng)
    elif r < 0.75:
        w.count('uris')
        u = rng.choice([c15.absolute(rng), c15.path(rng) + c15.tail(rng), c15.absolute(rng) + '.kmz/' + c15.path(rng), bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 8])))])
        judge(w, ['nullsuri', u, c15.absolute(rng), rng.choice([c15.name(rng, False), '/' + c15.path(rng), 'C:\\x\\y', ''])])
        judge(w, ['nullsnum', rng.choice(['1.5', '-2e3', 'x', '', '1x', ' 7', 'nan', '1,2,,3', '1e400', repr(rng.uniform(-1e9, 1e9))])])
    elif r < 0.85:
        archive(w, rng)
    elif r < 0.92:
        k = rng.choice(['A', 'a', 'X-Y', ''])
        judge(w, ['nullsweb', k, rng.choice(['v', '', 'a b']), rng.choice(['A', 'b', ''])])
    else:
        features(w, rng)


def judge(w, op):
    o = w.do([op])[0]
    for k in range(0, len(o) - 2, 3):
        n = o[k].decode()
        w.eq(o[k + 2], o[k + 1], 'optional:' + n.split(' ')[0] if not n.startswith('nothing') else n, '%s for %r' % (n, op[1:]))
        w.count('fn ' + n.split('(')[0].rstrip('0123456789 '))
    w.seen(op)
    w.sample(op[:2] if len(str(op[1])) < 200 else op[:1])
    return o


def document(w, rng):
    w.count('documents')
    g = gen.G(rng, rng.choice([5, 15, 40]), rng.choice([0.15, 0.4]), no_ids=rng.random() < 0.5)
    n = g.node(rng.choice(['Kml', 'Document', 'Folder', 'Placemark', 'NetworkLink', 'GroundOverlay', 'Style', 'AtomEntry', 'AtomFeed', 'Link', 'Point']))
    gen.parsed(n)
    t = gen.Writer(rng).xml(n)
    if rng.random() < 0.5:
        t = '<kml xmlns="http://www.opengis.net/kml/2.2"><Document>%s</Document></kml>' % t
    if rng.random() < 0.15:
        w.count('broken')
        k = rng.randrange(len(t))
        t = rng.choice([t[:k], t[:k] + '<' + t[k:], t + '</x>', '', '<x/>'])
    judge(w, ['nullsdoc', t])


def archive(w, rng):
    w.count('archives')
    buf = io.BytesIO()
    names = ['doc.kml', 'a/b.kml', 'x.png', 'kml', 'A.KML', 'é.kml', '']
    with zipfile.ZipFile(buf, 'w', rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        for n in rng.sample(names[:6], rng.randrange(0, 6)):
            z.writestr(n, rng.choice(['', '<kml/>', 'x' * 1000]))
    b = buf.getvalue()
    if rng.random() < 0.1:
        b = b[:rng.randrange(len(b))]
    judge(w, ['nullszip', b, rng.choice(names)])


def features(w, rng):
    w.count('features')
    fs = ''.join('<Placemark>%s</Placemark>' % ('<Point><coordinates>%d,%d</coordinates></Point>' % (rng.randrange(-20, 20), rng.randrange(-20, 20)) if rng.random() < 0.9 else '')
                 for _ in range(rng.choice([0, 1, 5, 20])))
    w.do([['parse', 'f', '<Folder>%s</Folder>' % fs, 'plain']])
    judge(w, ['nullsfeatures', 'f', '10', '-10', '10', '-10', str(rng.choice([0, 1, 3, 100]))])


