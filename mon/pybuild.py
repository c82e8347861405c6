"""Builds the Python bindings of /repo's current tree (SWIG) with sanitizers; cached by content."""
import hashlib
import os
import shutil
import subprocess
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build

PYTHON = '/usr/bin/python3.12' if os.path.exists('/usr/bin/python3.12') else '/usr/bin/python3'
RUNTIME = None
FLAGS = ['-fPIC', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all', '-shared-libasan']
MODULES = ('kmlbase', 'kmldom', 'kmlengine')


def runtime():
    d = subprocess.check_output(['clang', '-print-runtime-dir']).decode().strip()
    for p in (os.path.join(d, 'libclang_rt.asan-x86_64.so'), os.path.join(d, '..', 'linux', 'libclang_rt.asan-x86_64.so'),
              '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so'):
        if os.path.exists(p):
            return os.path.realpath(p)
    raise build.BuildError('no shared ASan runtime')


def _digest():
    h = hashlib.sha256(build._digest_headers())
    h.update(' '.join(FLAGS).encode())
    d = os.path.join(build.SRC, 'swig')
    for dp, dn, fn in os.walk(d):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(dp, f)
            if f.endswith('.i'):
                h.update(p.encode() + open(p, 'rb').read())
    return h


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise build.BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))


def pybuild():
    """Returns the directory which holds kmlbase.py, kmldom.py, kmlengine.py and their libraries."""
    h = _digest()
    src = [f for f in build._sources() if '/kml/xsd/' not in f and '/regionator/' not in f and '/convenience/' not in f]
    for f in src:
        h.update(f.encode() + open(f, 'rb').read())
    out = os.path.join(build.BUILD, 'py-' + h.hexdigest()[:24])
    if os.path.isdir(out):
        return out
    os.makedirs(build.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=build.BUILD, prefix='pytmp-')
    try:
        rt = os.path.dirname(runtime())
        inc = sysconfig.get_paths()['include']
        if not os.path.exists(os.path.join(inc, 'Python.h')):
            inc = '/usr/include/python3.12'
        jobs, objs = [], []
        for n, f in enumerate(src):
            o = os.path.join(tmp, 'l%d.o' % n)
            objs.append(o)
            cc = ['clang'] if f.endswith('.c') else ['clang++', '-std=gnu++17', '-fno-rtti']
            jobs.append(cc + build.COMMON + FLAGS + ['-O1', '-c', f, '-o', o])

        def wrap(m):
            sw = os.path.join(build.SRC, 'swig')
            c = os.path.join(tmp, m + '_wrap.cxx')
            _run(['swig', '-python', '-flatstaticmethod', '-c++', '-w451', '-I' + build.SRC, '-I' + sw, '-outdir', tmp, '-o', c, os.path.join(sw, m + '.i')])
            _run(['clang++', '-std=gnu++17', '-I' + inc] + build.COMMON + FLAGS + ['-O0', '-c', c, '-o', os.path.join(tmp, m + '.o')])
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
            r = [ex.submit(wrap, m) for m in MODULES] + [ex.submit(_run, j) for j in jobs]
            for x in r:
                x.result()
        _run(['clang++', '-shared'] + FLAGS + objs + ['-o', os.path.join(tmp, 'libkmlall.so'), '-Wl,-rpath,' + rt] + build.LIBS)
        for m in MODULES:
            _run(['clang++', '-shared'] + FLAGS + [os.path.join(tmp, m + '.o'), '-o', os.path.join(tmp, '_%s.so' % m), '-L' + tmp, '-lkmlall', '-Wl,-rpath,$ORIGIN', '-Wl,-rpath,' + rt])
        for f in os.listdir(tmp):
            if f.endswith(('.o', '.cxx')):
                os.unlink(os.path.join(tmp, f))
        os.rename(tmp, out)
    except OSError:
        if not os.path.isdir(out):
            raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    old = sorted((os.path.join(build.BUILD, f) for f in os.listdir(build.BUILD) if f.startswith('py-')), key=os.path.getmtime)
    for f in old[:-3]:
        if f != out:
            shutil.rmtree(f, ignore_errors=True)
    return out


if __name__ == '__main__':
    print(pybuild())
