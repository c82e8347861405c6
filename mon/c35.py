"""What a call took is given back: repeating any sequence of calls leaves no more memory, blocks or open files than before."""
import importlib
import os
import random
from .runner import Violation
ID = 'C35'
RULE = ('the recorded calls of a case of one of the workloads of the other properties, replayed five times from an empty state; allocated bytes and '
        'open files measured after each; distinct by workload and case')
OTHERS = ['c%02d' % k for k in range(1, 35) if k not in (16, 23, 25)]
CASES = {'quick': 6200, 'thorough': 60000}
MIN = dict({'balances': 5000}, **{'of_' + m: 60 for m in OTHERS})
ASSUMPTIONS = ['a leak is growth of the bytes held by the instrumented allocator, or of open descriptors, at every one of four repetitions of the same calls; '
               'memory which is kept once (tables filled at first use) is not one']


class Shim(object):
    """The worker seen by the other workload: its own counters and samples are not ours."""

    def __init__(self, w, mod):
        self._w, self.mod = w, mod
        self.timeout = w.timeout
        self.scratch = os.path.join(w.scratch, mod.ID)
        os.makedirs(self.scratch, exist_ok=True)

    def __getattr__(self, n):
        return getattr(self._w, n)

    def count(self, *a):
        pass

    def seen(self, o):
        pass

    def sample(self, o):
        pass


def setup(w):
    w.shims = {}
    for n in OTHERS:
        mod = importlib.import_module('mon.' + n)
        s = w.shims[n] = Shim(w, mod)
        w.begin(-1)
        if hasattr(mod, 'setup'):
            mod.setup(s)


def case(w, rng, i):
    n = OTHERS[(i // 8) % len(OTHERS)]
    s = w.shims[n]
    seed = rng.getrandbits(64)
    try:
        s.mod.case(s, random.Random(seed), i)
    except Violation:
        w.count('elsewhere')     # the other property's business
        return
    ops = [list(o) for o in w.ops]
    if not ops:
        return
    if balance(w, ops, n):
        w.count('of_' + n)
        w.seen((n, seed))


def balance(w, ops, n):
    """Repeats the calls from an empty state and compares what is held after each."""
    ops = [list(o) for o in ops]
    held, files = [], []
    for _ in range(5):
        try:
            o = w.do(ops + [['reset'], ['heap'], ['fds']])
        except Violation:
            w.count('unrepeatable')   # the files it worked on are gone
            return False
        held.append(int(o[-2][0]))
        files.append(int(o[-1][0]))
        if len(held) > 2 and held[-1] <= held[-2] and files[-1] <= files[-2]:
            break
    w.ops = ops
    w.count('balances')
    w.check(len(held) < 5 or not all(b > a for a, b in zip(held, held[1:])), 'leak:memory:' + n, lambda: 'each repetition of the same calls leaves more memory: %r' % held)
    w.check(len(held) < 5 or not all(b > a for a, b in zip(files, files[1:])), 'leak:files:' + n, lambda: 'each repetition of the same calls leaves more files open: %r' % files)
    w.sample({'workload': n, 'calls': [o[0] for o in ops[:30]], 'held': held, 'files': files})
    return True
