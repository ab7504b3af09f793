#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current tree.

build('asan'|'fsync'|'race') -> path of the binary. Objects live in
/verif/build/<variant>-<content hash>/, so an unchanged tree is not rebuilt and
a changed one always is."""
import glob, hashlib, os, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
OUT = os.environ.get('VERIF_OUT', os.path.join(HERE, 'build'))

LIB = ['-std=c90', '-O1', '-g', '-DNDEBUG', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fexceptions', '-fno-omit-frame-pointer',
       '-ftrivial-auto-var-init=pattern', '-fno-strict-aliasing', '-w',
       '-I%s/include' % REPO, '-I%s/src' % REPO,
       '-DURKEL_BUILD', '-DURKEL_DEBUG', '-DURKEL_TLS=__thread', '-D_POSIX_C_SOURCE=200112', '-DURKEL_SIM']
HARN = ['-std=c++17', '-O1', '-g', '-fno-omit-frame-pointer', '-I%s/include' % REPO]
SAN = ['-fsanitize=address', '-fsanitize=bounds,shift']

VARIANTS = {
    'asan': dict(lib=SAN, har=['-fsanitize=address'], link=SAN, extra='norace.cc'),
    'fsync': dict(lib=SAN + ['-DURKEL_FSYNC'], har=['-fsanitize=address'], link=SAN, extra='norace.cc'),
    'race': dict(lib=['-fsanitize=thread', '-fno-builtin', '-fno-stack-protector'], har=[], link=[], extra='race.cc'),
    'plain': dict(lib=['-fprofile-arcs', '-ftest-coverage'], har=[], link=['-lgcov'], extra='norace.cc'),
}
SKIP = {'urkel.c', 'io_posix.c', 'io_win.c'}


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SystemExit('BUILD FAILED: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def symbols(path, undefined):
    out = set()
    for l in run(['nm', '-u' if undefined else '--defined-only', path]).splitlines():
        f = l.split()
        if f:
            out.add(f[-1])
    return out


def build(variant):
    v = VARIANTS[variant]
    srcs = sorted(glob.glob(REPO + '/src/*.c'))
    hdrs = glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/include/*.h') + srcs
    harness = [os.path.join(SIM, n) for n in ('core.cc', 'model.cc', 'stored.cc', 'plan.cc', 'exec.cc', 'gen.cc', 'main.cc', v['extra'])]
    allsim = glob.glob(SIM + '/*')
    flags = repr((LIB, HARN, v))
    key = digest(hdrs + allsim + [os.path.abspath(__file__)], flags)
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, '%s-%s' % (variant, key))
    exe = os.path.join(d, 'sim')
    with open(os.path.join(OUT, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(OUT, variant + '-*')):
            shutil.rmtree(old, ignore_errors=True)
        hd = os.path.join(OUT, 'h%s' % variant)     # harness objects, keyed separately
        os.makedirs(d)
        os.makedirs(hd, exist_ok=True)
        hkey = digest(allsim + glob.glob(REPO + '/include/*.h'), repr((HARN, v['har'])))
        jobs, libobjs, hobjs = [], [], []
        for s in srcs:
            b = os.path.basename(s)
            if b in SKIP:
                continue
            o = os.path.join(d, b + '.o')
            libobjs.append(o)
            jobs.append(['gcc'] + LIB + v['lib'] + ['-c', s, '-o', o])
        o = os.path.join(d, 'urkel_cli.o')
        libobjs.append(o)
        jobs.append(['gcc'] + LIB + v['lib'] + ['-Dmain=urkel_cli_main', '-c', REPO + '/src/urkel.c', '-o', o])
        for s in harness:
            o = os.path.join(hd, os.path.basename(s) + '-' + hkey + '.o')
            hobjs.append(o)
            if not os.path.exists(o):
                jobs.append(['g++'] + HARN + v['har'] + ['-c', s, '-o', o])
        jobs.sort(key=lambda j: 0 if 'exec.cc' in ' '.join(j) or 'gen.cc' in ' '.join(j) else 1)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        keep = set(hobjs)
        for f in glob.glob(hd + '/*.o'):
            if f not in keep:
                os.unlink(f)
        lib = os.path.join(d, 'lib.o')
        run(['ld', '-r', '-o', lib] + libobjs)
        have = set()
        for o in hobjs:
            have |= {s for s in symbols(o, False) if s.startswith('sim_')}
        ren, left = [], []
        for s in sorted(symbols(lib, True)):
            base = s.split('@')[0]
            alias = {'open64': 'open', 'creat64': 'creat', 'openat64': 'openat', 'lseek64': 'lseek', 'pread64': 'pread', 'pwrite64': 'pwrite',
                     'ftruncate64': 'ftruncate', 'truncate64': 'truncate', 'fstat64': 'fstat', 'stat64': 'stat', 'lstat64': 'lstat',
                     'readdir64': 'readdir', 'mmap64': 'mmap', 'fcntl64': 'fcntl', 'fstatat64': 'fstatat', 'preadv64': 'preadv', 'pwritev64': 'pwritev', 'renameat2': 'renameat'}.get(base, base)
            if 'sim_' + alias in have:
                ren.append('%s sim_%s' % (s, alias))
            else:
                left.append(s)
        rf = os.path.join(d, 'redefine')
        with open(rf, 'w') as f:
            f.write('\n'.join(ren) + '\n')
        run(['objcopy', '--redefine-syms=' + rf, lib])
        with open(os.path.join(d, 'passthrough'), 'w') as f:
            f.write('\n'.join(left) + '\n')
        run(['g++'] + v['link'] + ['-rdynamic', '-o', exe + '.tmp'] + hobjs + [lib] + ['-lpthread'] + [x for x in v['link'] if x.startswith('-l')])
        os.rename(exe + '.tmp', exe)
    return exe


if __name__ == '__main__':
    for name in sys.argv[1:] or ['asan', 'fsync', 'race']:
        print(build(name))
