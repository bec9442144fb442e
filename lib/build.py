"""Builds the analysis model of /repo: compiles every library translation unit
to LLVM IR with clang, links and normalises them with the irdump tool and
returns the path of the JSON dump.  Results are cached by content hash."""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
CLANG = 'clang++'
FLAGS = ['-std=gnu++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug',
         '-D__forceinline=inline', '-include', 'cstring', '-fno-exceptions', '-Wno-everything',
         '-flto', '-fwhole-program-vtables', '-fvisibility=hidden', '-ffp-contract=off']
TOOLFLAGS = ['-O1', '-std=c++17', '-fno-exceptions', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
             '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']


class BuildError(Exception):
    pass


def tool():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(OUT, 'irdump-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(OUT, exist_ok=True)
    tmp = exe + '.%d.tmp' % os.getpid()
    r = subprocess.run(['g++'] + TOOLFLAGS + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('irdump does not build: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))


def headers():
    return sorted(glob.glob(os.path.join(REPO, 'include', '*')))


def model():
    """returns (json path, info)"""
    exe = tool()
    srcs = sources()
    if not srcs:
        raise BuildError('no sources under %s/src' % REPO)
    h = hashlib.sha256()
    driver = os.path.join(VERIF, 'tool', 'driver.cpp')
    for f in srcs + headers() + [driver, exe]:
        h.update(os.path.relpath(f, REPO).encode() if f.startswith(REPO) else os.path.basename(f).encode())
        h.update(open(f, 'rb').read())
    h.update(' '.join(FLAGS).encode())
    key = h.hexdigest()[:20]
    out = os.path.join(OUT, 'model-%s.json' % key)
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix='scsir')
    try:
        units = srcs + [driver]

        def comp(u):
            o = os.path.join(tmp, os.path.basename(u) + '.bc')
            r = subprocess.run([CLANG] + FLAGS + ['-I' + os.path.join(REPO, 'include'), '-emit-llvm', '-c', u, '-o', o],
                               capture_output=True, text=True, cwd=os.path.join(REPO, 'src'))
            return u, o, r
        bcs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for u, o, r in ex.map(comp, units):
                if r.returncode:
                    raise BuildError('%s does not compile: %s' % (u, r.stderr[-2000:]))
                bcs.append(o)
        r = subprocess.run([exe] + bcs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('irdump failed: ' + r.stderr[-2000:])
        with open(out + '.tmp%d' % os.getpid(), 'w') as f:
            f.write(r.stdout)
        os.rename(out + '.tmp%d' % os.getpid(), out)
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(OUT, 'model-*.json')), key=os.path.getmtime)
        for p in olds[:-6]:
            if p != out:
                os.unlink(p)
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    print(model())
