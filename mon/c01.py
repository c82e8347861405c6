"""No KML text makes the library misbehave: memory errors, undefined behaviour, aborts, uninitialised reads, endless loops."""
import os
from . import build, gen, mutate, reader, runner, server, schema as S
ID = 'C01'
RULE = ('KML texts: the repository\'s test documents and generated documents, mutated at byte, token and tree level, plus grammar-free '
        'noise; each goes through every reading entry point and every consumer of a parsed document; distinct by text')
CASES = {'quick': 16000, 'thorough': 150000}
MIN = {'checks': 1000, 'accepted': 500, 'rejected': 500, 'valgrind': 100}
ASSUMPTIONS = ['address, undefined-behaviour and container-bounds instrumentation covers libkml, not expat/zlib/uriparser/libstdc++ code',
               'uninitialised reads are observed by valgrind on the subset counted as valgrind']
VG = ['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--num-callers=20']
CORPUS = []


def corpus():
    if not CORPUS:
        base = os.path.join(build.REPO, 'testdata')
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if f.endswith(('.kml', '.xml', '.gpx', '.atom', '.xsd')) and os.path.getsize(p) < 60000:
                    CORPUS.append(open(p, 'rb').read())
    return CORPUS


def setup(w):
    corpus()
    w.vg = server.Server(build.build('plain'), timeout=240, wrapper=VG) if w.mod.ID == ID and not os.environ.get('NOVG') else None


def text(rng):
    r = rng.random()
    if r < 0.3 and CORPUS:
        t = rng.choice(CORPUS)
    else:
        cls = rng.choice(sorted(S.CLASSES)) if rng.random() < 0.4 else rng.choice(['Kml', 'Document', 'Folder', 'Placemark', 'Kml'])
        n = gen.G(rng, rng.choice([2, 10, 40, 100]), rng.choice([0.2, 0.5, 0.9]), idfn=lambda q: rng.choice('abcde'),
                  strfn=lambda q: rng.choice(['#a', '#b', 'x.kml#a', 'a', '', '$[a]', '$[a/b/c]', '&<>'])
                  if rng.random() < 0.5 else gen.g_string(q)).node(cls)
        wr = gen.Writer(rng, noise=rng.choice([0, 0.2]), shuffle=True)
        t = (wr.doc(n) if rng.random() < 0.4 and cls != 'Coordinates' else wr.xml(n)).encode('utf-8', 'surrogateescape')
        if rng.random() < 0.3:
            t = b'<kml><Document>' + t + b'</Document></kml>'
    k = rng.choice([0, 0, 1, 1, 2, 3, 6, 15])
    for _ in range(k):
        t = mutate.mutate(rng, t, CORPUS)
    return t[:200000], k


def case(w, rng, i):
    t, k = text(rng)
    o = w.do([['fuzz', t]], timeout=60)[0]
    w.count('mutations', k)
    if o[0] == b'ok':
        w.count('accepted')
        for nm, d in (('raw', o[1]), ('pretty', o[2]), ('ns', o[3]), ('file', o[4])):
            if not d:
                continue
            try:
                reader.tree(d)
                w.count('checks')
            except reader.Malformed as e:
                w.fail('malformed:' + nm, 'the %s output of an accepted document is not well-formed: %s\nin: %r\nout: %r' % (nm, e, t[:1500], d[:1500]))
    else:
        w.count('rejected')
        w.count('checks')
    w.seen(t)
    w.sample(t[:300])
    # (i // 8: every worker gets its share whatever the stride)
    if w.vg and (i // 8) % (40 if w.tier == 'quick' else 60) == 0 and len(t) < 5000:
        try:
            w.vg.run([['reset'], ['fuzz', t]])
            w.count('valgrind')
        except server.Died as e:
            import re
            m = re.search(r'==\d+== ((?:Conditional|Use of|Invalid|Syscall|Source|Mismatched|Argument|Process)[^\n]*)', e.text)
            f = re.search(r'(?:at|by) 0x[0-9A-F]+: (kml\w+::[\w:~<>]+)', e.text)
            raise runner.Violation('valgrind:%s@%s' % (re.sub(r'\d+', 'N', m.group(1)) if m else e.key, f.group(1) if f else '?'), e.text[:5000])
        except server.Hang:
            w.count('valgrind_slow')


def finish(w):
    if w.vg:
        w.vg.stop()
