"""Threads which work on documents of their own do not interfere with each other."""
import os
import random
import shutil
import tempfile
from . import c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c13, c14, c15, c17, c18, c19, c20, c21, c22, c24, c26, c27, c28, c29, c30, c31, c33, c34
from .runner import Violation
ID = 'C25'
KIND = 'tsan'
RULE = ('operation sequences of twenty-eight other properties and of work with files, each with its own documents, run at the same time in two to eight threads, first in a fresh process so that '
        'first uses collide, with random delays; outputs compared with those of the same sequence alone; distinct by order of operations observed')
CASES = {'quick': 1400, 'thorough': 12000}
MIN = {'checks': 20000, 'fresh': 300, 'interleaved': 500, 'parallel_ops': 60000, 'switches': 20000, 'with_files': 80}
MODS = [c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c13, c14, c15, c17, c18, c19, c20, c21, c22, c24, c26, c27, c28, c29, c30, c31, c33, c34]
BAD = {'heap', 'leaks', 'fsize', 'fdlimit', 'locale', 'cpplocale', 'csvfile', 'flregionate', 'kzcreate', 'kzadd', 'kzaddlist', 'fileops', 'kzwrite', 'kzfrompath', 'kzfromel', 'kzfromkf', 'kzopenfile'}


class Recorder(object):
    """The worker seen by another property's workload: runs it alone and keeps the record."""

    def __init__(self, w, mod):
        self.w, self.mod = w, mod
        self.ops, self.script, self.out = [], [], []
        self.scratch = w.scratch
        self.seed, self.tier, self.timeout = w.seed, w.tier, w.timeout

    def do(self, ops, timeout=None):
        ops = [[a if isinstance(a, (str, bytes)) else str(a) for a in o] for o in ops]
        o = self.w.do(ops, timeout)
        self.script += ops
        self.out += o
        return o

    def eq(self, *a):
        pass

    def check(self, *a):
        pass

    def fail(self, key, msg):
        raise Violation(key, msg)

    def count(self, *a):
        pass

    def seen(self, obj):
        pass

    def sample(self, obj):
        pass


class Files(object):
    """Files and archives, each thread in a folder of its own."""
    ID = 'files'

    @staticmethod
    def case(r, rng, i):
        d = tempfile.mkdtemp(dir=r.scratch)
        os.mkdir(d + '/reg')
        os.mkdir(d + '/sub')
        text = ''.join(rng.choice('abc \n') for _ in range(rng.choice([10, 3000, 20000])))
        pms = ''.join('<Placemark><name>n%d</name><Point><coordinates>%r,%r</coordinates></Point></Placemark>' % (k, rng.uniform(-170, 170), rng.uniform(-80, 80)) for k in range(rng.choice([2, 12, 40])))
        doc = '<kml><Document><name>%d</name><NetworkLink><Link><href>sub/b.txt</href></Link></NetworkLink>%s</Document></kml>' % (rng.randrange(1 << 20), pms)
        ops = [['fwritef', d + '/a.txt', text], ['fwritef', d + '/sub/b.txt', text[::-1]], ['fwritef', d + '/doc.kml', doc], ['freadf', d + '/a.txt'], ['fexists', d + '/doc.kml'], ['fexists', d + '/none'], ['freadf', d + '/none']]
        parts = [
            [['kzcreate', 'z', d + '/x.kmz'], ['kzadd', 'z', doc, 'doc.kml'], ['kzadd', 'z', text, 'p/q.txt'], ['kzaddlist', 'z', d, 'a.txt', 'sub/b.txt', 'none'], ['kzdrop', 'z'], ['kzopenfile', 'y', d + '/x.kmz'], ['kzlist', 'y'], ['kzreadkml', 'y'],
             ['kzread', 'y', 'sub/b.txt'], ['kzread', 'y', 'p/q.txt'], ['kzdrop', 'y'], ['fdelete', d + '/x.kmz']],
            [['kzwrite', d + '/w.kmz', doc], ['kzopenfile', 'y', d + '/w.kmz'], ['kzreadkml', 'y'], ['kzdrop', 'y'], ['fdelete', d + '/w.kmz']],
            [['kzfrompath', d + '/doc.kml', d + '/f.kmz'], ['kzopenfile', 'y', d + '/f.kmz'], ['kzlist', 'y'], ['kzread', 'y', 'sub/b.txt'], ['kzdrop', 'y'], ['fdelete', d + '/f.kmz']],
            [['parse', 'e', doc, 'plain'], ['kzfromel', 'e', d, d + '/g.kmz'], ['kzopenfile', 'y', d + '/g.kmz'], ['kzreadkml', 'y'], ['kzdrop', 'y'], ['fdelete', d + '/g.kmz']],
            [['flclear']] + [x for k in range(rng.choice([3, 25])) for x in (['parse', 'x', '<Placemark><name>n%d</name><Point><coordinates>%r,%r</coordinates></Point></Placemark>' % (k, rng.uniform(-9, 9), rng.uniform(-8, 8)), 'plain'], ['flpush', 'l', 'x'])] +
            [['flregionate', 'l', '5', d + '/reg'], ['freadf', d + '/reg/1.kml'], ['freadf', d + '/reg/2.kml'], ['flclear']],
        ]
        rng.shuffle(parts)
        for p in parts[:rng.choice([2, 3, 5])]:
            ops += p
        r.do(ops + [['fdelete', d + '/a.txt'], ['fdelete', d + '/doc.kml'], ['fdelete', d + '/sub/b.txt']])


def record(w, rng, alone=False, only=None):
    while 1:
        mod = only or (Files if not alone and rng.random() < 0.08 else rng.choice(MODS))
        r = Recorder(w, mod)
        w.do([['reset']])
        try:
            mod.case(r, random.Random(rng.getrandbits(64)), rng.randrange(64, 1 << 20))
        except Violation as v:
            if '@' in v.key or v.key.startswith('hang'):
                raise
            continue
        except (KeyError, IndexError, ValueError, TypeError, AttributeError):
            continue                # a workload which went on after a failed check of its own
        # the environment belongs to the process: what changes it is not run in threads
        if mod is Files or r.script and not any(o[0] in BAD or o[0] == 'webnew' and len(o) > 3 for o in r.script):
            return [['reset']] + r.script, [[]] + r.out, mod.ID


def case(w, rng, i):
    n = rng.choice([2, 2, 3, 4, 8])
    x = rng.random()
    if x < 0.2:
        s = [record(w, rng, True)] * n
    elif x < 0.5:                   # the same functions on different data
        mod = rng.choice(MODS)
        s = [record(w, rng, False, mod) for _ in range(n)]
        w.count('same_functions')
    else:
        s = [record(w, rng) for _ in range(n)]
    s = [x for x in s if sum(len(a) for o in x[0] for a in o) < 200000]
    if len(s) < 2:
        return
    rounds = rng.choice([1, 1, 2, 4]) if sum(len(x[0]) for x in s) > 60 * len(s) else rng.choice([1, 4, 16])
    args = [str(rounds), str(rng.choice([0, rng.randrange(1, 1 << 30)]))]
    for sc, out, nm in s:
        args.append(str(len(sc)))
        for o in sc:
            args.append(str(len(o)))
            args += o
    if rng.random() < 0.6:
        w.srv.stop()                # the first uses of everything happen in the threads
        w.count('fresh')
    w.ops = [['reset']]
    w.count('with_files', sum(1 for x in s if x[2] == 'files'))
    o = w.do([['threads'] + args])[0]
    order, p = o[0], 1
    for k, (sc, out, nm) in enumerate(s):
        w.eq(o[p], b'0', 'repeat:' + nm, 'outputs of thread %d are the same in each round' % k)
        p += 1
        for op, exp in zip(sc, out):
            c = int(o[p])
            w.eq(o[p + 1:p + 1 + c], exp, 'output:%s:%s' % (nm, op[0]), 'output of %r in thread %d' % (op[:4], k))
            p += 1 + c
        w.count('by_' + nm)
    for x in os.listdir(w.scratch):
        shutil.rmtree(os.path.join(w.scratch, x), ignore_errors=True)
    w.count('parallel_ops', len(order))
    sw = sum(1 for a, b in zip(order, order[1:]) if a != b)
    w.count('switches', sw)
    if sw > len(s) - 1:
        w.count('interleaved')
        w.seen(order)
    w.sample({'threads': len(s), 'of': [x[2] for x in s], 'switches': sw, 'order': order[:80].decode()})
