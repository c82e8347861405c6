"""Edits of a document while it is in use: simple fields of random elements set or cleared through the API."""
import re
from . import schema as S
# An empty text of a text-only element is no text: KML has no spelling which tells them apart.
EMPTY = re.compile(rb'(\((?:Snippet|LinkSnippet|SimpleData)(?: (?:maxlines|name)="[^"]*")*) text=""')


def norm(d):
    return EMPTY.sub(rb'\1', d).decode('latin1')


def value(rng, fl, strings=()):
    k = fl.kind
    if k in 'sT':
        return rng.choice(list(strings) or ['v', 'new value', 'x1', '7'])
    if k == 'b':
        return rng.choice('01')
    if k == 'd':
        return repr(float(rng.randrange(-80, 81)))
    if k == 'i':
        return str(rng.randrange(100))
    if k == 'e':
        return str(rng.randrange(len(S.ENUMS[fl.arg])))
    if k == 'c':
        return '%08x' % rng.getrandbits(32)
    return None


def edit(w, rng, root, n, classes=None, keep=('id', 'targetid'), strings=None, clear=0.25):
    """n elements of the tree are picked, a field of each is changed; the operations which were done"""
    o = w.do([['pick', root, rng.randrange(10 ** 6), 'ed%d' % k] for k in range(n)])
    ops = []
    for k, q in enumerate(o):
        cls = q[1].decode()
        if cls not in S.CLASSES or (classes and cls not in classes):
            continue
        fs = [f for f in S.CLASSES[cls].fields if f.kind in 'sTbdiec' and f.acc not in keep]
        if not fs:
            continue
        f = rng.choice(fs)
        if rng.random() < clear:
            ops.append(['clear', 'ed%d' % k, f.acc])
        else:
            ops.append(['set', 'ed%d' % k, f.acc, value(rng, f, (strings or {}).get(f.acc, ()))])
    if ops:
        w.do(ops)
    return ops
