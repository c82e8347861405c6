"""Files: what is written is what is read, and only the file named is touched."""
import os
import shutil
import stat
from . import gen
ID = 'C32'
RULE = ('random histories of writing, reading, testing and deleting files in a directory, of missing and impossible targets, of write failures part way, of a process which can open no more files and of temporary files, '
        'the directory compared with a model after every history; distinct by history')
CASES = {'quick': 90000, 'thorough': 150000}
MIN = {'checks': 250000, 'writes': 30000, 'reads': 25000, 'deletes': 20000, 'failures': 10000, 'temporary': 25000, 'nofiles': 3000}
NAMES = ['a', 'b.kml', 'c d.txt', '\u00e9\u4e2d.kmz', 'sub/x', 'sub/y.kml', '.hidden', 'long' * 40, "q'\"&"]


def data(rng):
    r = rng.random()
    if r < 0.3:
        return gen.g_string(rng).encode('utf-8', 'surrogateescape')
    if r < 0.7:
        return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 7, 300])))
    n = 5000000 + rng.randrange(5000000) if rng.random() < 0.003 else rng.choice([1023, 1024, 1025, 2048, 4096, 8191, 8192, 65536, rng.randrange(100000)])
    b = bytes(rng.getrandbits(8) for _ in range(64))
    return (b * (n // 64 + 1))[:n]


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = ('->', os.readlink(p)) if os.path.islink(p) else open(p, 'rb').read()
        for x in ds:
            if not os.path.islink(os.path.join(d, x)):
                out[os.path.relpath(os.path.join(d, x), root)] = None
    return out


def case(w, rng, i):
    r = rng.random()
    if r < 0.75:
        history(w, rng)
    else:
        temporary(w, rng)


def history(w, rng):
    root = os.path.join(w.scratch, 'h')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + '/sub/empty')
    m = {'sub': None, 'sub/empty': None}
    if rng.random() < 0.3:
        os.symlink(rng.choice(['a', 'b.kml', 'nowhere', 'sub']), root + '/ln')
        m['ln'] = ('->', os.readlink(root + '/ln'))
    ops, exp = [], []

    def target(n):
        return m[n][1] if n == 'ln' and 'ln' in m and m['ln'] and m['ln'][0] == '->' else n

    for _ in range(rng.choice([3, 6, 12])):
        n = rng.choice(NAMES + list(m) * 2)
        p = os.path.join(root, n)
        t = target(n)
        r = rng.random()
        if r < 0.1:
            # targets which are no files
            w.count('failures')
            p = rng.choice(['', root, root + '/sub', root + '/no/such', root + '/sub/empty/', '/dev/full', root + '/' + 'n' * 300])
            k = rng.choice(['fwritef', 'freadf', 'fexists', 'fdelete'])
            if p == '/dev/full':
                k = 'fwritef'
            if k == 'fwritef':
                ops.append([k, p, data(rng) or b'x'])
                exp.append([b'0'])
            elif k == 'freadf':
                ops.append([k, p])
                exp.append([b'0', b'untouched', b'0'])
            else:
                ops.append([k, p])
                exp.append([b'0'])
        elif r < 0.14:
            # no file can be opened: the failure is reported and nothing is lost
            w.count('nofiles')
            k = rng.randrange(4)
            ops += [['fdlimit', '0'], ['fwritef', p, data(rng)] if k < 2 else ['freadf', p], ['fdlimit', 'max']]
            exp += [[b'0'], [b'0'] if k < 2 else [b'0', b'untouched', b'0'], [b'0']]
        elif r < 0.4:
            w.count('writes')
            d = data(rng)
            limit = rng.random() < 0.1 and len(d) > 20
            if limit:
                # the disk is full part way: the failure is reported
                w.count('failures')
                ops += [['fsize', str(rng.randrange(0, len(d)))], ['fwritef', p, d], ['fsize', 'max']]
                exp += [[b'0'], [b'0'], [b'0']]
                if m.get(t, b'') is None:
                    continue
                m[t] = Ellipsis
            else:
                ops.append(['fwritef', p, d])
                if m.get(t, b'') is None:
                    exp.append([b'0'])
                else:
                    exp.append([b'1'])
                    m[t] = d
        elif r < 0.65:
            w.count('reads')
            ops.append(['freadf', p])
            if m.get(t) is Ellipsis:
                exp.append(None)
            elif isinstance(m.get(t), bytes):
                exp.append([b'1', m[t], b'0'])
            else:
                exp.append([b'0', b'untouched', b'0'])
        elif r < 0.8:
            ops.append(['fexists', p])
            exp.append([b'1' if isinstance(m.get(t), bytes) or m.get(t) is Ellipsis else b'0'])
        else:
            w.count('deletes')
            ops.append(['fdelete', p])
            if n in m and m[n] is not None:
                del m[n]            # of a link the link
                exp.append([b'1'])
            else:
                exp.append([b'0'])
    o = w.do(ops)
    for q, g, e in zip(ops, o, exp):
        if e is not None:
            w.eq(g, e, q[0], '%r of %r' % (q[:2], [x[:2] for x in ops]))
    got = tree(root)
    for k in [k for k in m if m[k] is Ellipsis]:
        got.pop(k, None)
        del m[k]
    w.eq(got, m, 'directory', 'the directory after %r' % [x[:2] for x in ops])
    w.sample([[str(z)[:60] for z in x] for x in ops])
    w.seen([x[:1] + [os.path.basename(x[1])] + x[2:] for x in ops])


def temporary(w, rng):
    slots, names = {}, set()
    um = rng.choice([0o22, 0o77, 0, 0o27])
    old = int(w.do([['setumask', str(um)]])[0][0])
    try:
        for _ in range(rng.choice([3, 8])):
            w.count('temporary')
            s = rng.choice('abcd')
            r = rng.random()
            if r < 0.45:
                before = slots.pop(s, None)
                n = w.do([['tmpnew', s]])[0][0].decode()
                w.check(n and n not in names, 'unique', 'temporary file %r, others %r' % (n, names))
                names.add(n)
                slots[s] = n
                st = os.lstat(n)
                w.eq((stat.S_ISREG(st.st_mode), oct(stat.S_IMODE(st.st_mode)), st.st_size), (True, oct(0o600), 0), 'new', 'a new temporary file')
                d = data(rng)
                o = w.do([['fwritef', n, d], ['freadf', n]])
                w.eq(o, [[b'1'], [b'1', d, b'0']], 'use', 'a temporary file written and read')
            elif r < 0.65 and slots:
                a = rng.choice(sorted(slots))
                before = slots.pop(s, None) if s != a else None
                n = w.do([['tmpcopy', a, s]])[0][0].decode()
                w.eq(n, slots[a], 'name', 'name of the same temporary file')
                slots[s] = n
            elif r < 0.9:
                before = slots.pop(s, None)
                if before and before not in slots.values() and rng.random() < 0.2:
                    os.unlink(before)           # gone already
                w.do([['tmpdrop', s]])
            elif r < 0.95:
                w.count('nofiles')
                o = w.do([['fdlimit', '0'], ['tmpraw'], ['tmpnew', 'none'], ['fdlimit', 'max'], ['umaskis']])
                w.eq(o, [[b'0'], [b'0', b'untouched', b'0'], [b''], [b'0'], [b'%d' % um]], 'nofiles', 'temporary file where none can be opened')
                before = None
            else:
                o = w.do([['tmpraw']])[0]
                n = o[1].decode()
                w.check(o[0] == b'1' and o[2] == b'0' and n not in names and os.path.isfile(n), 'raw', 'new temporary file %r' % o)
                names.add(n)
                st = os.lstat(n)
                os.unlink(n)
                names.discard(n)
                w.eq(oct(stat.S_IMODE(st.st_mode)), oct(0o600), 'raw', 'its permissions')
                before = None
            for n in names:
                if n in slots.values():
                    w.check(os.path.exists(n), 'early', 'a temporary file in use is gone')
                else:
                    w.check(not os.path.exists(n), 'late', 'a temporary file outlives its last user')
        w.eq(int(w.do([['umaskis']])[0][0]), um, 'umask', 'the file creation mask of the process')
    finally:
        for s in list(slots):
            w.do([['tmpdrop', s]])
        w.do([['setumask', str(old)]])
    w.check(not any(os.path.exists(n) for n in names), 'late', 'temporary files are left behind')
    w.seen((um, sorted(slots), len(names)))

