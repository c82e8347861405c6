"""Client of the instrumented op server; detects crashes, reports and hangs."""
import ctypes
import os
import re
import select
import signal
import struct
import subprocess
import tempfile
import time

ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=3000:'
                    'handle_abort=1:symbolize=1:malloc_context_size=20',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66',
    'LSAN_OPTIONS': 'exitcode=0',
    'ASAN_SYMBOLIZER_PATH': '/usr/bin/llvm-symbolizer-18' if os.path.exists('/usr/bin/llvm-symbolizer-18') else '/usr/bin/llvm-symbolizer',
}


class Died(Exception):
    """The process under test ended while executing an operation batch."""

    def __init__(self, key, text, ops):
        Exception.__init__(self, key)
        self.key, self.text, self.ops = key, text, ops


class Hang(Exception):
    def __init__(self, ops, text=''):
        Exception.__init__(self, 'hang')
        self.ops, self.text = ops, text


def classify(text, rc):
    """A stable key: report kind and the innermost frame in the library."""
    kind = None
    m = re.search(r'ERROR: (\w+Sanitizer): ([\w-]+(?: [\w-]+)?)', text)
    if m:
        kind = m.group(2).split(' on ')[0].strip()
        kind = kind.split()[0]
    m2 = re.search(r'runtime error: (.*)', text)
    if m2:
        kind = 'ub:' + re.sub(r'0x[0-9a-f]+|\d+(\.\d+(e[+-]?\d+)?)?', 'N', m2.group(1))[:60]
    m3 = re.search(r'Assertion .* failed|terminate called.*|WARNING: ThreadSanitizer: .*', text)
    if not kind and m3:
        kind = re.sub(r' \(pid=\d+\)', '', m3.group(0))[:60]
    if not kind:
        kind = 'exit%d' % rc
    fr = '?'
    for m in re.finditer(r'#\d+ (?:0x[0-9a-f]+ in )?(\S+).*?/src/kml/(\S+?):', text):
        fr = re.sub(r'\(.*', '', m.group(1))
        break
    return '%s@%s' % (kind, fr)


def enc(ops):
    out = [struct.pack('<I', len(ops))]
    for op in ops:
        out.append(struct.pack('<I', len(op)))
        for a in op:
            if not isinstance(a, bytes):
                a = a.encode('utf-8', 'surrogateescape') if isinstance(a, str) else str(a).encode()
            out.append(struct.pack('<I', len(a)))
            out.append(a)
    p = b''.join(out)
    return struct.pack('<I', len(p)) + p


def dec(p):
    res = []
    n, = struct.unpack_from('<I', p, 0)
    k = 4
    for _ in range(n):
        na, = struct.unpack_from('<I', p, k)
        k += 4
        o = []
        for _ in range(na):
            l, = struct.unpack_from('<I', p, k)
            k += 4
            o.append(p[k:k + l])
            k += l
        res.append(o)
    return res


class Server(object):
    def __init__(self, binary, env=None, timeout=60.0, wrapper=None, rss_mb=6000):
        self.binary, self.timeout, self.wrapper = binary, timeout, wrapper or []
        self.env = dict(os.environ)
        self.env.update(ENV)
        self.env.update(env or {})
        self.p = None
        self.batches = 0
        self.opcount = 0
        self.restarts = 0
        self.history = []      # batches since the process started (for state-dependent replays)

    def start(self):
        r, w = os.pipe()
        self.err = tempfile.TemporaryFile()

        libc = ctypes.CDLL(None)

        def pre():
            libc.prctl(1, signal.SIGKILL)       # the process under test does not outlive its monitor
            os.dup2(w, 3)
            os.set_inheritable(3, True)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        # child keeps w as fd 3
        self.p = subprocess.Popen(self.wrapper + [self.binary], stdin=subprocess.PIPE, stdout=self.err, stderr=self.err,
                                  env=self.env, preexec_fn=pre, pass_fds=(3, w) if w != 3 else (3,), close_fds=True)
        os.close(w)
        self.r = r
        os.set_blocking(r, False)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            os.close(self.r)
            self.err.close()
            self.p = None

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            os.close(self.r)
            t = self._errtext()
            self.err.close()
            self.p = None
            return t
        return ''

    def _errtext(self):
        self.err.seek(0)
        return self.err.read().decode(errors='replace')

    def run(self, ops, timeout=None):
        """Executes the operations in order in one batch; returns outputs."""
        if not self.p or (self.opcount > 400000):
            if self.p:
                self.stop()
            self.start()
            self.opcount = 0
            self.restarts += 1
        self.batches += 1
        self.opcount += len(ops)
        data = enc(ops)
        deadline = time.monotonic() + (timeout or self.timeout)
        try:
            self._write(data, deadline)
            buf = self._readn(4, deadline)
            n, = struct.unpack('<I', buf)
            return dec(self._readn(n, deadline))
        except EOFError:
            rc = self.p.wait()
            t = self.kill()
            raise Died(classify(t, rc), t, ops)
        except TimeoutError:
            t = self.kill()
            raise Hang(ops, t)

    def _write(self, data, deadline):
        fd = self.p.stdin.fileno()
        os.set_blocking(fd, False)
        mv = memoryview(data)
        while mv:
            try:
                k = os.write(fd, mv[:1 << 16])
                mv = mv[k:]
            except BlockingIOError:
                if time.monotonic() > deadline:
                    raise TimeoutError()
                select.select([], [fd], [], 0.5)
            except BrokenPipeError:
                raise EOFError()

    def _readn(self, n, deadline):
        out = []
        while n:
            try:
                b = os.read(self.r, min(n, 1 << 20))
            except BlockingIOError:
                left = deadline - time.monotonic()
                if left <= 0:
                    raise TimeoutError()
                select.select([self.r], [], [], min(left, 1.0))
                continue
            if not b:
                raise EOFError()
            out.append(b)
            n -= len(b)
        return b''.join(out)
