"""Runs a property monitor over many cases on all cores and reports.

A property module defines
  ID, RULE, CASES = {'quick': n, 'thorough': m}
  case(w, rng, i)     one workload; raises Violation through w.fail / w.do
optional: KIND (build kind) or serve() giving the server, ENV, WRAPPER, setup(w), finish(w), MIN (counter -> minimum).
"""
import atexit
import hashlib
import importlib
import json
import multiprocessing
import os
import queue
import random
import re
import shutil
import struct
import sys
import tempfile
import time
import traceback
import xml.parsers.expat
import zipfile
import zlib
from . import build, server

VERIF = build.VERIF
NPROC = min(8, os.cpu_count() or 8)


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, key)
        self.key, self.msg = key, msg


class Inconclusive(Exception):
    pass


class W(object):
    """Worker context: one instrumented server, counters and evidence."""

    def __init__(self, mod, binary, seed, tier, scratch):
        self.mod, self.binary, self.seed, self.tier, self.scratch = mod, binary, seed, tier, scratch
        self.counters = {}
        self.seen_set = set()
        self.samples = []
        self.ops = []
        self.i = -1
        self.timeout = getattr(mod, 'TIMEOUT', 60)
        self.srv = server.Server(binary, timeout=self.timeout, env=getattr(mod, 'ENV', None), wrapper=getattr(mod, 'WRAPPER', None))

    def begin(self, i):
        self.i = i
        self.ops = []

    def do(self, ops, timeout=None):
        """Executes ops in the server; any sanitizer report, abort or
        confirmed hang is a violation.  Returns outputs as lists of bytes."""
        ops = [list(o) for o in ops]
        if not self.ops:
            ops_sent = [['reset']] + ops
        else:
            ops_sent = ops
        before = list(self.ops)
        self.ops += ops_sent
        self.count('ops', len(ops))
        try:
            out = self.srv.run(ops_sent, timeout)
        except server.Hang:
            # not a verdict on its own: repeat the case alone, three times the budget
            try:
                if before:
                    self.srv.run(before, (timeout or self.timeout))
                out = self.srv.run(ops_sent, (timeout or self.timeout) * 3)
                self.count('slow_retries')
            except server.Hang:
                raise Violation('hang:' + self._suspect(ops), 'no answer within %ss (three times the budget, repeated alone)' % ((timeout or self.timeout) * 3))
            except server.Died as e:
                raise Violation(e.key, e.text[:6000])
        except server.Died as e:
            raise Violation(e.key, e.text[:6000])
        out = out[len(ops_sent) - len(ops):]
        for o, q in zip(out, ops):
            if o and o[0] in (b'!noop', b'!noacc'):
                raise RuntimeError('harness: %r -> %r' % (q, o))
        return out

    def _suspect(self, ops):
        names = []
        for o in ops:
            if o[0] not in names:
                names.append(o[0])
        return '+'.join(names[:6])

    def fail(self, key, msg):
        raise Violation(key, msg)

    def check(self, cond, key, msg):
        self.count('checks')
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def eq(self, got, exp, key, what=''):
        self.count('checks')
        if got != exp:
            raise Violation(key, '%s\nexpected: %s\nobserved: %s' % (what, _short(exp, got), _short(got, exp)))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, obj):
        """Registers a distinct non-trivial case."""
        if not isinstance(obj, bytes):
            obj = repr(obj).encode('utf-8', 'surrogateescape')
        self.seen_set.add(hashlib.blake2b(obj, digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(_trim(obj))


def _short(a, b):
    a, b = (x if isinstance(x, str) else (x.decode('latin1') if isinstance(x, bytes) else repr(x)) for x in (a, b))
    k = 0
    m = min(len(a), len(b))
    while k < m and a[k] == b[k]:
        k += 1
    return ('...' if k > 150 else '') + a[max(0, k - 150):k + 350]


def _trim(o):
    if isinstance(o, str):
        return o if len(o) < 600 else o[:600] + '...'
    if isinstance(o, bytes):
        return _trim(o.decode('latin1'))
    if isinstance(o, (list, tuple)):
        return [_trim(x) for x in o[:40]]
    if isinstance(o, dict):
        return {k: _trim(v) for k, v in list(o.items())[:40]}
    return o


def _known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}


def known_match(prop, key):
    for k in _known().get('findings', []):
        if k['property'] == prop and k.get('status') == 'known' and re.fullmatch(k['key'], key):
            return k
    return None


# What an oracle raises when it is given output of a shape which the operation never has.
MALFORMED = (IndexError, KeyError, ValueError, TypeError, AttributeError, AssertionError, xml.parsers.expat.ExpatError, SyntaxError, ArithmeticError, EOFError, StopIteration,
             FileNotFoundError, NotImplementedError, zipfile.BadZipFile, zlib.error, struct.error)


def _malformed(mod, w, seed, i, first):
    """The oracle could not read the observed output.  The case is deterministic:
    it is run again, and is a violation only if the output is unreadable again."""
    w.begin(i)
    try:
        mod.case(w, random.Random('%s/%s/%d' % (mod.ID, seed, i)), i)
    except Violation as v:
        return v
    except MALFORMED as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return Violation('unreadable:%s' % type(e).__name__, 'the observed output is not of the form the operation gives\n%s in %s\n%s' % (
            e, tb.name, traceback.format_exc()[-1500:]))
    raise first


SOFT = {'quick': 540.0, 'thorough': 1e9}     # no new case after so many seconds
GRACE = 90.0                                 # what other workers get to finish after a violation was observed


def _worker(modname, binary, seed, tier, shard, n, q, only, t0, base):
    try:
        mod = importlib.import_module('mon.' + modname)
        scratch = tempfile.mkdtemp(dir=base)
        try:
            w = W(mod, binary, seed, tier, scratch)
            viols, known = [], {}
            if hasattr(mod, 'setup'):
                mod.setup(w)
            done = 0
            rng_cases = [only] if only is not None else range(shard, n, NPROC)
            for i in rng_cases:
                if time.time() - t0 > SOFT[tier]:
                    w.count('cut_short')
                    break
                w.begin(i)
                rng = random.Random('%s/%s/%d' % (mod.ID, seed, i))
                try:
                    mod.case(w, rng, i)
                except MALFORMED as e:
                    v = _malformed(mod, w, seed, i, e)
                except Violation as e:
                    v = e
                else:
                    v = None
                if v:
                    k = known_match(mod.ID, v.key)
                    if k:
                        known[k['id']] = known.get(k['id'], 0) + 1
                    else:
                        viols.append({'key': v.key, 'msg': v.msg, 'case': i, 'ops': [[_hex(a) for a in o] for o in w.ops]})
                        q.put({'early': viols[-1]})
                        if len(viols) >= 3 or v.key.startswith('hang:'):
                            break
                done += 1
            if hasattr(mod, 'finish') and not viols:
                w.begin(-1)
                try:
                    mod.finish(w)
                except Violation as v:
                    viols.append({'key': v.key, 'msg': v.msg, 'case': -1, 'ops': [[_hex(a) for a in o] for o in w.ops]})
            w.srv.stop()
            q.put({'ok': True, 'done': done, 'viols': viols, 'known': known, 'counters': w.counters,
                   'seen': w.seen_set, 'samples': w.samples, 'batches': w.srv.batches})
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    except BaseException:
        q.put({'ok': False, 'err': traceback.format_exc()})


def _hex(a):
    b = a if isinstance(a, bytes) else str(a).encode('utf-8', 'surrogateescape')
    try:
        s = b.decode('utf-8')
        return s
    except UnicodeDecodeError:
        return {'hex': b.hex()}


def main(prop, tier=None, replay=None, cases=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    modname = prop.lower()
    mod = importlib.import_module('mon.' + modname)
    only = None
    if replay:
        r = json.load(open(replay))
        seed, tier, only = r['seed'], r['tier'], r['case']
    try:
        if hasattr(mod, 'serve'):
            binary = mod.serve()
        else:
            binary = build.build(os.environ.get('VERIF_KIND') or getattr(mod, 'KIND', 'asan'), getattr(mod, 'MAIN', None))
    except build.BuildError as e:
        sys.stderr.write('ERROR: build failed\n%s\n' % e)
        return 3
    tb = time.time() - t0
    n = cases or mod.CASES[tier]
    if hasattr(mod, 'main'):
        return mod.main(binary, seed, tier)
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    np_ = 1 if only is not None else NPROC
    base = tempfile.mkdtemp(prefix='kmlmon-')
    atexit.register(shutil.rmtree, base, True)
    ps = [ctx.Process(target=_worker, args=(modname, binary, seed, tier, s, n, q, only, t0, base)) for s in range(np_)]
    for p in ps:
        p.start()
    res, early, since = [], [], None
    while len(res) < len(ps):
        try:
            r = q.get(timeout=5)
            if 'early' in r:
                early.append(r['early'])
                since = since or time.time()
            else:
                res.append(r)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
        if since and time.time() - since > GRACE:
            break
    if since and len(res) < len(ps):
        # what was observed decides; the workers still busy (often with the same defect) are not waited for
        for p in ps:
            if p.is_alive():
                p.terminate()
    for p in ps:
        p.join()
    bad = [r for r in res if not r['ok']]
    if not early:
        if len(res) < len(ps):
            sys.stderr.write('ERROR: %d worker(s) ended without a result\n' % (len(ps) - len(res)))
            return 3
        if bad:
            sys.stderr.write(bad[0]['err'])
            return 3
    res = [r for r in res if r['ok']]
    counters, seen, samples, viols, known = {}, set(), [], list(early), {}
    for r in res:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        seen |= r['seen']
        samples += r['samples'][:1]
        viols += [v for v in r['viols'] if v not in early]
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
    done = sum(r['done'] for r in res)
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': done, 'distinct_nontrivial': len(seen), 'rule': mod.RULE, 'samples': samples[:4] or ['(none)'],
                     'observed': dict(sorted(counters.items()))},
        'assumptions': getattr(mod, 'ASSUMPTIONS', ['the workload is sampled: behaviour outside the generated inputs is not observed']),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
    }
    ev['coverage']['build_s'] = round(tb, 2)
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w'), indent=1, ensure_ascii=True)
    for k in _known().get('findings', []):
        if k['property'] == mod.ID and k.get('status') == 'known':
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))
    if viols:
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        shown = set()
        for v in viols:
            if v['key'] in shown:
                continue
            shown.add(v['key'])
            p = os.path.join(VERIF, 'evidence', 'replay', '%s-%s-%d.json' % (mod.ID, seed, v['case']))
            json.dump({'property': mod.ID, 'seed': seed, 'tier': tier, 'case': v['case'], 'key': v['key'], 'message': v['msg'],
                       'replay_cmd': 'python3 %s/check.py %s --replay %s' % (VERIF, mod.ID, p), 'ops': v['ops']}, open(p, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (mod.ID, p))
            print('  key: %s' % v['key'])
            print('  ' + v['msg'][:1500].replace('\n', '\n  '))
        return 1
    # a run that observed nothing is an error of the check, never a pass
    if only is None:
        for k, m in getattr(mod, 'MIN', {'checks': 1}).items():
            m = max(1, int(m * 0.25))
            if counters.get(k, 0) < m:
                print('ERROR: monitor observed only %d %s (expected at least %d)' % (counters.get(k, 0), k, m))
                return 3
    print('%s %s seed=%d: held on %d cases (%d distinct), %s, %.1fs' % (
        mod.ID, tier, seed, done, len(seen), ' '.join('%s=%d' % x for x in sorted(counters.items()) if not x[0].startswith('cls_')), time.time() - t0))
    return 0
