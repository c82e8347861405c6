"""Builds the instrumented op server from /repo's current working tree."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
COMMON = ['-g1', '-DNDEBUG', '-fno-omit-frame-pointer', '-w', '-I' + SRC, '-I' + HARNESS]
KINDS = {
    # address + undefined-behaviour sanitizers, container bounds checks
    'asan': (['-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function',
              '-fno-sanitize-recover=all'], '-O1'),
    'tsan': (['-fsanitize=thread'], '-O1'),
    'plain': ([], '-O1'),
    'cov': (['-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function',
             '-fprofile-instr-generate', '-fcoverage-mapping'], '-O1'),
}
LIBS = ['-lexpat', '-lz', '-lminizip', '-luriparser', '-lpthread']


class BuildError(Exception):
    pass


def _sources():
    cc = []
    base = os.path.join(SRC, 'kml')
    for d in ('base', 'dom', 'engine', 'convenience', 'regionator', 'xsd'):
        p = os.path.join(base, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.cc') and f not in ('file_win32.cc', 'kml22.cc'):
                cc.append(os.path.join(p, f))
    mz = os.path.join(base, 'base', 'contrib', 'minizip')
    for f in ('unzip.c', 'iomem_simple.c'):
        if os.path.exists(os.path.join(mz, f)):
            cc.append(os.path.join(mz, f))
    return cc


def _digest_headers():
    h = hashlib.sha256()
    for root in (os.path.join(SRC, 'kml'), HARNESS):
        for dp, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.h', '.inc')) or f == 'kml22.cc':
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.digest()


def build(kind='asan', main=None):
    """Returns the path of the server binary. Objects are cached by content."""
    flags, opt = KINDS[kind]
    hd = _digest_headers()
    objdir = os.path.join(BUILD, 'obj-' + kind)
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    objs = []
    harness = []
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith('.cc'):
            harness.append(os.path.join(HARNESS, f))
    if main:
        harness = [os.path.join(HARNESS, main)]
    for f in harness + _sources():
        c = f.endswith('.c')
        is_h = f.startswith(HARNESS)
        cmd = (['clang'] if c else ['clang++', '-std=gnu++17', '-frtti' if f.endswith('/locale.cc') else '-fno-rtti']) + COMMON + flags + \
            ['-O0' if is_h else opt]
        key = hashlib.sha256(hd + ' '.join(cmd).encode() + f.encode() + open(f, 'rb').read()).hexdigest()[:24]
        o = os.path.join(objdir, key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd + ['-c', f], o))

    def run(j):
        cmd, o = j
        tmp = '%s.%d.tmp' % (o, os.getpid())
        p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
        os.rename(tmp, o)

    if jobs:
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            list(ex.map(run, jobs))
    key = hashlib.sha256(('\n'.join(objs) + kind).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'kmlmon-%s-%s' % (kind, key))
    if not os.path.exists(out):
        tmp = '%s.%d.tmp' % (out, os.getpid())
        p = subprocess.run(['clang++'] + flags + objs + ['-o', tmp] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(p.stdout.decode(errors='replace')[-4000:])
        os.rename(tmp, out)
    _prune(objdir, set(objs))
    return out


def _prune(objdir, keep):
    """Bound the cache: drop the oldest objects and binaries."""
    try:
        fs = [os.path.join(objdir, f) for f in os.listdir(objdir)]
        fs = [f for f in fs if f not in keep]
        fs.sort(key=os.path.getmtime)
        for f in fs[:max(0, len(fs) - 500)]:
            os.unlink(f)
        bs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('kmlmon-')]
        bs.sort(key=os.path.getmtime)
        for f in bs[:max(0, len(bs) - 12)]:
            os.unlink(f)
    except OSError:
        pass


if __name__ == '__main__':
    for k in sys.argv[1:] or ['asan']:
        print(build(k))
