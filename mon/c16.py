"""Ownership: one parent per element, elements live as long as they are held, everything is released."""
from . import gen, schema as S, c01
ID = 'C16'
RULE = ('random histories of create, attach, replace, remove, release, clone and import over a pool of element handles, checked against an '
        'ownership model under ASan; heap balance of whole-library runs over valid and broken documents; distinct by history or text')
CASES = {'quick': 15000, 'thorough': 160000}
MIN = {'checks': 30000, 'attach': 5000, 'refused': 500, 'outlived': 300, 'cycle': 300, 'again': 300, 'orphan': 100, 'delid': 5, 'balances': 1500, 'deep': 500}
CL = sorted(S.CLASSES)
PAIRS = [(c, fl) for c in CL for fl in S.CLASSES[c].fields if fl.kind in 'CA']


class El(object):
    def __init__(self, n):
        self.n, self.kids, self.parent, self.removed = n, [], None, False

    def build(self):
        """The model node with children in place."""
        m = gen.Node(self.n.cls)
        m.f = dict(self.n.f)
        for fl, k in self.kids:
            if fl.kind == 'C':
                m.f[fl.acc] = k.build()
            else:
                m.f[fl.acc] = m.f.get(fl.acc, []) + [k.build()]
        return m

    def below(self, a):
        """Whether this is a or lies below it."""
        e = self
        while e is not None and e is not a:
            e = e.parent
        return e is not None


def alive(pool):
    """Elements reachable from the held handles."""
    s, st = set(), [e for e in pool.values()]
    while st:
        e = st.pop()
        if id(e) in s:
            continue
        s.add(id(e))
        st += [k for _, k in e.kids]
    return s


def history(w, rng, i):
    pool, ops, exp, ctr = {}, [], [], [0]
    g = gen.G(rng, 2, 0.3)

    def new(cls):
        n = g.node(cls, 99)
        n.f = {a: v for a, v in n.f.items() if S.CLASSES[cls].by[a].kind not in 'CA'}
        if cls in S.members('Feature') and rng.random() < 0.4:
            n.f['id'] = rng.choice(['a', 'b', 'id%d' % ctr[0]])
        ctr[0] += 1
        r = 'h%d' % ctr[0]
        gen.api_ops(n, r, ops, ctr)
        pool[r] = El(n)
        return r

    def obs(r):
        exp.append((len(ops), gen.dump(pool[r].build()), 'state'))
        ops.append(['dump', r])

    def par(r):
        e = pool[r]
        live = alive(pool)
        if e.parent is None:
            exp.append((len(ops), 'null', 'parent'))
            ops.append(['parent', r, 'p'])
        elif id(e.parent) not in live:
            w.count('outlived')
            exp.append((len(ops), 'null', 'outlived'))
            ops.append(['parent', r, 'p'])
        else:
            ops.append(['parent', r, 'p'])
            exp.append((len(ops), gen.dump(e.parent.build()), 'parent'))
            ops.append(['dump', 'p'])
        ops.append(['drop', 'p'])
    for _ in range(3):
        c, fl = rng.choice(PAIRS)
        new(c)
        new(rng.choice(S.members(fl.arg)))
    if rng.random() < 0.15:         # a deep tree: nothing of it goes below itself, however far down
        kind = rng.choice(['Folder', 'Document', 'MultiGeometry'])
        fl = S.CLASSES[kind].by['geometry' if kind == 'MultiGeometry' else 'feature']
        chain = [new(kind) for _ in range(rng.choice([3, 9, 20, 70]))]
        for a, b in zip(chain, chain[1:]):
            ops.append(['cset', a, fl.acc, b])
            pool[a].kids.append((fl, pool[b]))
            pool[b].parent = pool[a]
        for _ in range(4):
            k = rng.choice([0, 0, 0, 1, rng.randrange(len(chain))])
            a, b = chain[rng.randrange(k, len(chain)) if rng.random() < 0.6 else -1], chain[k]
            ops.append(['cset', a, fl.acc, b])
            w.count('cycle')
            w.count('deep')
            obs(b)
            par(b)
    for _ in range(rng.choice([5, 15, 40])):
        r = rng.random()
        regs = sorted(pool)
        if r < 0.15 or len(regs) < 3:
            c, fl = rng.choice(PAIRS)
            new(rng.choice([c] + S.members(fl.arg)))
        elif r < 0.6:
            # attach something that fits (or does not, because it has a parent)
            a = rng.choice(regs)
            fits = [(fl, b) for fl in S.CLASSES[pool[a].n.cls].fields if fl.kind in 'CA' for b in regs
                    if pool[b].n.cls in S.members(fl.arg)]
            cyc = [x for x in fits if pool[a].below(pool[x[1]])]
            if cyc and rng.random() < 0.3:
                fits = cyc
            if not fits:
                c = S.CLASSES[pool[a].n.cls]
                fs = [fl for fl in c.fields if fl.kind in 'CA']
                if not fs:
                    continue
                fl = rng.choice(fs)
                b = new(rng.choice(S.members(fl.arg)))
            else:
                fl, b = rng.choice(fits)
            ops.append(['cset', a, fl.acc, b])
            pa, pb = pool[a], pool[b]
            if pb.parent is not None and id(pb.parent) not in alive(pool):
                pb.parent.kids = [k for k in pb.parent.kids if k[1] is not pb]
                pb.parent = None
                w.count('orphan')
            if pa.below(pb):
                w.count('cycle')
            elif pb.parent is not None:
                w.count('refused')
            else:
                w.count('attach')
                if pb.removed:
                    w.count('again')
                if fl.kind == 'C':
                    for q in [k for k in pa.kids if k[0].acc == fl.acc]:
                        q[1].parent, q[1].removed = None, True
                        pa.kids.remove(q)
                pa.kids.append((fl, pb))
                pb.parent = pa
            obs(a)
            obs(b)
            par(b)
        elif r < 0.7:
            a = rng.choice(regs)
            fs = sorted({fl.acc for fl, k in pool[a].kids if fl.kind == 'C'})
            if not fs:
                continue
            f = rng.choice(fs)
            ops.append(['clear', a, f])
            for q in [k for k in pool[a].kids if k[0].acc == f]:
                q[1].parent, q[1].removed = None, True
                pool[a].kids.remove(q)
            obs(a)
        elif r < 0.78:
            a = rng.choice([q for q in regs if pool[q].kids] or regs)
            fs = sorted({fl.acc for fl, k in pool[a].kids if fl.kind == 'A' and fl.acc in ('feature', 'schema', 'styleselector') and
                         pool[a].n.cls in ('Document', 'Folder')})
            if not fs:
                continue
            f = rng.choice(fs)
            l = [k for k in pool[a].kids if k[0].acc == f]
            at = rng.randrange(len(l))
            ctr[0] += 1
            reg = 'd%d' % ctr[0]
            if f == 'feature' and rng.random() < 0.4:
                ids = [k[1].n.f['id'] for k in l if k[1].n.f.get('id')]
                x = rng.choice(['', 'nope'] + ids * 3)
                hit = [j for j, k in enumerate(l) if k[1].n.f.get('id') == x]
                exp.append((len(ops), 'ok' if hit else 'null', 'deleteid'))
                ops.append(['delid', a, x, reg])
                if not hit:
                    ops.append(['drop', reg])
                    obs(a)
                    continue
                at = hit[0]
                w.count('delid')
            else:
                exp.append((len(ops), 'ok', 'delete'))
                ops.append(['delat', a, f, at, reg])
            pool[a].kids.remove(l[at])
            l[at][1].parent, l[at][1].removed = None, True
            pool[reg] = l[at][1]
            obs(a)
            obs(reg)
            par(reg)
        elif r < 0.92:
            a = rng.choice(regs)
            e = pool.pop(a)
            ops.append(['drop', a])
            live = alive(pool)
            for q in sorted(pool):
                if rng.random() < 0.4:
                    obs(q)
                    par(q)
            del e, live
        else:
            a = rng.choice(regs)
            ctr[0] += 1
            ops.append(['clone', a, 'c%d' % ctr[0]])
            exp.append((len(ops), gen.dump(pool[a].build()), 'clone'))
            ops.append(['dump', 'c%d' % ctr[0]])
            ops.append(['drop', 'c%d' % ctr[0]])
    for q in sorted(pool):
        obs(q)
        par(q)
    return ops, exp


def case(w, rng, i):
    if i % 5 < 3:
        ops, exp = history(w, rng, i)
        o = w.do(ops)
        import re
        for k, e, key in exp:
            got = o[k][0].decode('latin1')
            if key == 'clone':
                from .c07 import norm
                got, e = norm(o[k][0]), norm(e.encode('latin1'))
            w.eq(got, e, key, 'after %r' % (ops[max(0, k - 3):k + 1],))
        w.seen(repr(ops))
        if i % 5 == 0:
            h = []
            for _ in range(4):
                o = w.do([['reset']] + ops + [['reset'], ['heap']])
                h.append(int(o[-1][0]))
            balance(w, h, 'history')
        return
    # heap balance of everything the library does with a text
    t, k = c01.text(rng)
    if len(t) > 20000:
        t = t[:20000]
    h = []
    for _ in range(3):
        h.append(int(w.do([['fuzz', t], ['heap']])[1][0]))
    if h[2] > h[1]:
        for _ in range(2):
            h.append(int(w.do([['fuzz', t], ['heap']])[1][0]))
    balance(w, h, 'text', t)
    w.seen(t)
    w.sample(t[:200].decode('latin1'))


def balance(w, h, what, t=b''):
    w.count('balances')
    w.check(not all(b > a for a, b in zip(h[1:], h[2:])), 'leak:' + what,
            lambda: 'every repetition of the same calls leaves more memory allocated: %r\n%r' % (h, t[:1500]))


def setup(w):
    c01.corpus()
