"""Applying updates: Change, Create and Delete do to the document exactly what they say, in order."""
import copy
from . import gen, mergemodel as M, schema as S
from .c07 import norm
ID = 'C11'
RULE = ('random files and histories of updates with Change, Create and Delete on live, deleted, missing and unsuitable targets, with and without '
        'an id map; the whole document is compared with the model after every update; distinct by history')
CASES = {'quick': 24000, 'thorough': 120000}
MIN = {'checks': 20000, 'change': 4000, 'create': 1500, 'delete': 1200, 'ignored': 1500, 'mapped': 700, 'detached': 100}
OBJ = sorted(set(S.members([f for f in S.CLASSES['Change'].fields if f.kind == 'A'][0].arg)) - {'IconStyleIcon'})
FEAT = ['Placemark', 'Folder', 'NetworkLink', 'GroundOverlay', 'ScreenOverlay', 'PhotoOverlay', 'GxTour', 'Document']


def parents(root):
    p = {}
    st = [root]
    while st:
        n = st.pop()
        for fl, k in n.kids():
            p[id(k)] = (n, fl)
            st.append(k)
    return p


def case(w, rng, i):
    root = gen.G(rng, rng.choice([10, 30, 80]), rng.choice([0.2, 0.4])).node(rng.choice(['Kml', 'Document', 'Folder', 'Kml']))
    k = 0
    plain = rng.random() < 0.8
    objs = []
    for n in root.walk():
        n.f.pop('targetid', None)
        if S.CLASSES[n.cls].is_object:
            n.f.pop('id', None)
            if rng.random() < 0.7:
                n.f['id'] = 'o%d' % k if plain else ['o', 'O', 'o0', 'o.'][k % 4] + '1' * (k // 4)
                k += 1
                objs.append(n)
    if not objs:
        return
    gen.parsed(root)
    if rng.random() < 0.3:      # a decoy: ids within foreign content are no objects
        root.uattrs['zz'] = 'o0'
    text = gen.Writer(rng).xml(root)
    if rng.random() < 0.7:
        ops = [['kfparse', 'k', text]]
    else:
        ops = [['parse', 'p', text, 'plain'], ['kfimport', 'k', 'p', 'strict']]
    ops += [['kfroot', 'k', 'r'], ['dump', 'r']]
    model = copy.deepcopy(root)
    byid = {n.f['id']: n for n in model.walk() if S.CLASSES[n.cls].is_object and 'id' in n.f}
    checks = [(len(ops) - 1, gen.dump(model), 'parsed')]
    hist = []
    detached = set()
    for u in range(gen.many(rng, [1, 3, 6], (30,), 0.01)):
        useMap = rng.random() < 0.3
        idmap = {}
        if useMap:
            share = rng.choice([0, 0.5, 0.8, 0.8, 1])
            for n in objs:
                if rng.random() < share:
                    idmap['m-' + rng.choice(objs).f['id']] = n.f['id']
        up = gen.Node('Update')
        up.f['targethref'] = 'x'
        up.f['updateoperation'] = []
        for _ in range(gen.many(rng, [1, 2, 4], (20, 60), 0.01)):
            kind = rng.choice(['Change', 'Change', 'Create', 'Delete'])
            op = gen.Node(kind)
            up.f['updateoperation'].append(op)
            for _ in range(gen.many(rng, [1, 1, 2, 4], (30,), 0.01)):
                t = rng.choice(objs)
                if kind != 'Change' and rng.random() < 0.8:
                    c = [n for n in objs if n.cls in (FEAT if kind == 'Delete' else ('Folder', 'Document'))]
                    t = rng.choice(c) if c else t
                tid = t.f['id']
                if rng.random() < 0.08:
                    tid = rng.choice(['nope', '', 'o99999'])
                spelled = tid
                if useMap:
                    c = [a for a, b in idmap.items() if b == tid]
                    if c and rng.random() < 0.9:
                        spelled = rng.choice(c)
                        w.count('mapped')
                    else:
                        tid = None
                        if spelled in idmap:
                            tid = idmap[spelled]
                live = byid.get(tid) if tid is not None else None
                bare = rng.random() < 0.03
                if kind == 'Change':
                    src = mk(rng, live.cls if live is not None else rng.choice(['Placemark', 'LookAt', 'Folder']))
                    if src is None:
                        continue
                    if live is not None:
                        M.disambiguate(rng, src, live)
                    if rng.random() < 0.1:
                        src.f['id'] = rng.choice(['fresh', 'o0'])
                    if not bare:
                        src.f['targetid'] = spelled
                    gen.parsed(src)
                    op.f.setdefault('object', []).append(src)
                    if live is not None and not bare:
                        keep = live.f['id']
                        s2 = copy.deepcopy(src)
                        s2.f.pop('targetid', None)
                        try:
                            M.elements(s2, live)
                        except M.Ambiguous:
                            raise AssertionError('ambiguous')
                        live.f['id'] = keep
                        w.count('change')
                        if id(live) in detached:
                            w.count('detached')
                    else:
                        w.count('ignored')
                elif kind == 'Create':
                    src = mk(rng, rng.choice(['Folder', 'Document']))
                    fs = [gen.parsed(gen.G(rng, rng.choice([1, 6, 20]), 0.3).node(rng.choice(FEAT))) for _ in range(gen.many(rng, [0, 1, 2, 3], (12, 40), 0.02))]
                    for f in fs:
                        for n in f.walk():
                            n.f.pop('targetid', None)
                            if n.f.get('id', '').startswith('o'):
                                del n.f['id']
                    src.f.pop('feature', None)
                    if fs:
                        src.f['feature'] = fs
                    if rng.random() < 0.3:
                        src.f['id'] = rng.choice(['fresh', 'o0', 'o1'])
                    if not bare:
                        src.f['targetid'] = spelled
                    gen.parsed(src)
                    op.f.setdefault('container', []).append(src)
                    if live is not None and not bare and live.cls in ('Folder', 'Document'):
                        for f in fs:
                            live.f.setdefault('feature', []).append(M.clone(f))
                        w.count('create')
                    else:
                        w.count('ignored')
                else:
                    src = gen.Node(rng.choice(FEAT))
                    if rng.random() < 0.2:
                        src = mk(rng, rng.choice(FEAT))
                    if rng.random() < 0.3:
                        src.f['id'] = rng.choice(['fresh', 'o0', 'o1'])
                    if not bare:
                        src.f['targetid'] = spelled
                    gen.parsed(src)
                    op.f.setdefault('feature', []).append(src)
                    pr = parents(model).get(id(live)) if live is not None else None
                    if live is not None and not bare and live.cls in FEAT and pr and pr[0].cls in ('Folder', 'Document', 'Kml') and id(live) not in detached:
                        p, fl = pr
                        if fl.kind == 'A':
                            p.f[fl.acc] = [x for x in p.f[fl.acc] if x is not live]
                            if not p.f[fl.acc]:
                                del p.f[fl.acc]
                        else:
                            del p.f[fl.acc]
                        for x in live.walk():
                            detached.add(id(x))
                        # what was below it stays below it, and out of the document
                        w.count('delete')
                    else:
                        w.count('ignored')
        ut = gen.Writer(rng).xml(up)
        ops += [['parse', 'u', ut, 'plain'], ['update', 'u', 'k'] + [x for kv in idmap.items() for x in kv], ['dump', 'r'], ['dump', 'u'], ['ptrs', 'r', 'u']]
        if useMap and not idmap:
            ops[-4] = ['update', 'u', 'k', 'none'] + ([] if rng.random() < 0.5 else ['none'])
        checks.append((len(ops) - 3, gen.dump(model), 'update %d: %s' % (u, ut[:600])))
        checks.append((len(ops) - 2, gen.dump(up), 'the update itself'))
        hist.append(ut)
    o = w.do(ops)
    for at, want, what in checks:
        w.eq(norm(o[at][0]), norm(want.encode('latin1')), 'update-unchanged' if what == 'the update itself' else 'document', what)
        if ops[at + 1][0] == 'ptrs' if at + 1 < len(ops) else False:
            w.eq(o[at + 1][2], b'0', 'sharing', 'elements held by document and update')
    w.seen((text, hist))
    w.sample({'document': text[:300], 'updates': [h[:300] for h in hist[:2]]})


def mk(rng, cls):
    if cls not in OBJ:
        return None
    n = gen.G(rng, rng.choice([1, 4, 12]), rng.choice([0.1, 0.3]), no_ids=True).node(cls)
    for x in n.walk():
        x.f.pop('targetid', None)
        x.f.pop('id', None)
    return n
