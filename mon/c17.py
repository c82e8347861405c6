"""Text, stream, chunked and observed parsing give one document, and observers see exactly the element events of the text."""
import re
from . import gen, reader, schema as S, c01
ID = 'C17'
RULE = ('generated, mutated and truncated documents parsed as a string, from a stream (also breaking at any byte), in chunks of any size and '
        'with observers which record, refuse children or stop at any event; events and trees compared with an independent reading of the text; '
        'distinct by text and schedule')
CASES = {'quick': 27000, 'thorough': 200000}
MIN = {'checks': 60000, 'events': 200000, 'stops': 3000, 'vetoes': 1500, 'breaks': 1500, 'rejected': 1500, 'chunked': 6000, 'again': 3000}


def write(e, drop=(), inside=False):
    a = ''.join(' %s="%s"' % (k, gen.esc_attr(v)) for k, v in e.attrs.items())
    raw = inside or e.tag not in reader.KNOWN or e.tag == 'description'
    out = []
    for p in e.parts:
        if isinstance(p, str):
            out.append(gen.esc_text(p).replace('\r', '&#13;'))
        elif not raw and p.tag in drop and p.tag in reader.KNOWN:
            continue
        else:
            out.append(write(p, drop, raw))
    return '<%s%s>%s</%s>' % (e.tag, a, ''.join(out), e.tag)


# names known to the library which are no elements of KML
ODD = re.compile(rb'<(snippet|units|maxLength|altitudeModeGroup|IconStyleIcon)\b')


def events(e, parent, out, ctr):
    """N id name / E parent id name / A parent id name"""
    if e.tag not in reader.KNOWN:
        return
    me = ctr[0]
    ctr[0] += 1
    out.append('N %d %s' % (me, e.tag))
    if e.tag != 'description':
        for k in e.kids:
            events(k, me, out, ctr)
    if parent is not None:
        out.append('E %d %d %s' % (parent, me, e.tag))
        out.append('A %d %d %s' % (parent, me, e.tag))


def depth(e):
    return 1 + max([depth(k) for k in e.kids] or [0])


def same(w, key, what, rs, errs=True):
    """all parses agree"""
    for (nm, o) in rs[1:]:
        w.eq(o, rs[0][1], key, '%s compared with %s' % (nm, rs[0][0]))


def again(w, rng, t):
    """one parser used for several texts, broken ones between, parses each as a fresh one"""
    ts = [t] + [c01.text(rng)[0] for _ in range(rng.choice([1, 2, 4]))]
    ts = [x for x in ts if len(x) < 20000]
    if not ts:
        return
    for j in range(rng.choice([0, 1, 2])):
        x = rng.choice(ts)
        ts.append(x[:rng.randrange(len(x) + 1)])
    ts.append(rng.choice(ts))
    rng.shuffle(ts)
    mode = rng.choice(['plain', 'plain', 'ns', 'atom'])
    o = w.do([['reparse', mode] + ts] + [['reparse', mode, x] for x in ts])
    w.eq(o[0], [y for x in o[1:] for y in x], 'again', 'texts parsed by one parser, compared with a fresh one for each')
    w.count('again', len(ts))


def case(w, rng, i):
    t, k = c01.text(rng)
    if b'&' in t and b'<!' in t:
        t = t.replace(b'<!', b'')
    if rng.random() < 0.1:
        t = t[:rng.randrange(len(t) + 1)]
    if rng.random() < 0.15 and t:   # sizes around the stream's buffer
        pad = rng.choice([4096, 8192]) - len(t) + rng.choice([-1, 0, 0, 1])
        if pad > 0:
            t = b' ' * 0 + t + b' ' * pad
    sizes = [rng.choice([1, 2, 3, 7, 16, 100, 1000, 4096, 10 ** 6]) for _ in range(rng.choice([1, 1, 3]))]
    if len(t) > 20000:
        sizes = [max(s, 100) for s in sizes]
    ops = [['parse', 'a', t, 'plain'], ['dump', 'a'], ['stream', 'b', t, 'good', '-1'], ['dump', 'b'], ['chunks', 'c', t] + [str(s) for s in sizes], ['dump', 'c'],
           ['observe', 'd', t, 'plain', '1', '-1'], ['dump', 'd'], ['observe', 'e', t, 'plain', '2', '-1'], ['stream', 'f', t, 'good', 'none'], ['dump', 'f'], ['parse', 'g', t, 'kml'], ['dump', 'g'],
           ['kfparse', 'k', t], ['kfroot', 'k', 'h'], ['dump', 'h']]
    o = w.do(ops)
    w.count('chunked')
    ok = o[0][0]
    for j, nm in ((2, 'stream'), (4, 'chunks'), (6, 'observed'), (8, 'observed twice'), (9, 'stream without observer'), (11, 'ParseKml'), (13, 'KmlFile')):
        w.eq(o[j][0], ok, 'accept', 'acceptance by %s' % nm)
    for j, nm in ((3, 'stream'), (5, 'chunks'), (7, 'observed'), (10, 'stream without observer'), (12, 'ParseKml'), (15, 'KmlFile')):
        w.eq(o[j][0], o[1][0], 'tree', 'document from %s' % nm)
    if ok == b'null':
        w.count('rejected')
        for j in (0, 4, 6):
            w.check(o[j][1] != b'', 'noerror', 'a rejected document has an error message')
        w.check(o[2][2] != b'' and o[9][2] != b'', 'noerror', 'a rejected stream has an error message')
        w.check(o[2][1] == b'nostream', 'nostream', 'a rejected stream gives nothing')
    ev = o[6][2:]
    w.eq(o[2][3:], ev, 'streamevents', 'events from the stream')
    w.count('events', len(ev))
    two = o[8][2:]
    if ok == b'ok':
        w.eq(two, [x for e in ev for x in (b'0:' + e, b'1:' + e)], 'two', 'two observers see the same events, one after the other')
    root = None
    try:
        root = reader.tree(t)
    except (reader.Malformed, IndexError):
        pass
    exact = False
    if root is not None and ok == b'ok' and b'Schema' not in t and not ODD.search(t):
        exp = []
        events(root, None, exp, [0])
        w.eq([x.decode() for x in ev], exp, 'events', 'events of the text')
        exact = True
    w.seen(t)
    if not ev:
        return
    # the stream breaks
    if rng.random() < 0.4:
        n = rng.randrange(len(t) + 1)
        o = w.do([['stream', 'b', t, str(n), '-1'], ['stream', 'b', t, 'fail', '-1']])
        w.eq((o[0][0], o[0][1]), (b'null', b'nostream'), 'broken', 'a stream which broke after byte %d of %d' % (n, len(t)))
        w.eq((o[1][0], o[1][1]), (b'null', b'nostream'), 'broken2', 'a stream which had failed before')
        w.count('breaks')
    # an observer stops the parse or refuses a child
    k = rng.randrange(len(ev))
    how = rng.choice(['parse', 'stream', 'two'])
    if how == 'stream':
        q = w.do([['stream', 'x', t, 'good', str(k)], ['dump', 'x']])
        got = q[0][3:]
    elif how == 'parse':
        q = w.do([['observe', 'x', t, 'plain', '1', str(k)], ['dump', 'x']])
        got = q[0][2:]
    else:
        n = rng.choice([2, 2, 3, 5])
        who = rng.randrange(n)
        q = w.do([['observe', 'x', t, 'plain', '%d@%d' % (n, who), str(k)], ['dump', 'x']])
        got = [e[2:] for e in q[0][2:] if e.startswith(b'%d:' % who)]
    w.count('stops')
    if ev[k][:1] in b'NA':
        w.eq(q[0][0], b'null', 'stop', 'the parse an observer stopped at event %d (%r)' % (k, ev[k]))
        w.eq(got[:k + 1], ev[:k + 1], 'stopevents', 'events up to the stop')
        rest = got[k + 1:]
        if ev[k][:1] == b'N':   # the end of an empty element may still be reported
            me = ev[k].split()[1]
            rest = [e for e in rest if not (e[:1] in b'EA' and e.split()[2] == me)]
        w.eq(rest, [], 'afterstop', 'events after the stop')
    elif ok == b'ok':
        w.eq(q[0][0], b'ok', 'refuse', 'refusing a child does not stop the parse')
        w.eq(got, ev, 'refuseevents', 'events with a refused child')
    # children refused by name
    if exact and rng.random() < 0.5:
        names = sorted(set(e.split()[3].decode() for e in ev if e[:1] == b'E'))
        if names:
            drop = rng.sample(names, min(len(names), rng.choice([1, 1, 2])))
            x, y = write(root), write(root, drop)
            q = w.do([['observe', 'x', x, 'plain', rng.choice(['1', '2@0', '2@1', '3@1', '3@2', '6@5', '6@3']), '-1'] + drop, ['dump', 'x'], ['parse', 'y', y, 'plain'], ['dump', 'y']])
            w.check(q[0][0] == b'ok' and q[2][0] == b'ok', 'vetoparse', 'parses with children refused')
            w.eq(q[1][0], q[3][0], 'veto', 'the document without the refused %s' % drop)
            w.count('vetoes')
    if rng.random() < 0.15:
        again(w, rng, t)
    w.sample({'bytes': len(t), 'events': len(ev), 'chunks': sizes})


def setup(w):
    c01.corpus()
