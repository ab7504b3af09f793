#!/usr/bin/env python3
"""Development aid: mut.py (PATCH | -COMMIT) [PROP:BUILD:COUNT ...]
Applies a patch to (or reverts a commit in) a scratch copy of /repo, builds the
simulator against it and runs batches. Prints the violation classes found and
keeps plans in /tmp/mut/<name>/out. Nothing is changed in /repo."""
import os, re, shutil, subprocess, sys, glob, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
what, props = sys.argv[1], sys.argv[2:]
name = re.sub(r'\W+', '_', what.replace('/patch.diff', '').split('/')[-1]) + '-%d' % os.getpid()
top = '/tmp/mut/' + name
shutil.rmtree(top, ignore_errors=True)
os.makedirs(top)
repo = top + '/repo'
subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
if what.startswith('-'):
    r = subprocess.run(['git', '-C', repo, 'revert', '-n', what[1:]], capture_output=True, text=True)
else:
    r = subprocess.run(['git', '-C', repo, 'apply', os.path.abspath(what)], capture_output=True, text=True)
if r.returncode:
    print('CANNOT APPLY', r.stderr[-300:]); sys.exit(2)
env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=top + '/build')
hz = {}
for p in props:
    pid, b, n = p.split(':')
    if b not in hz:
        # reuse harness objects
        os.makedirs(top + '/build', exist_ok=True)
        if not os.path.exists(top + '/build/h' + b):
            shutil.copytree('/verif/build/h' + b, top + '/build/h' + b)
        r = subprocess.run(['python3', HERE + '/build.py', b], env=env, capture_output=True, text=True)
        if r.returncode:
            print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(2)
        hz[b] = r.stdout.split()[-1]
    out = top + '/out-%s-%s' % (pid, b)
    os.makedirs(out)
    ps = [subprocess.Popen([hz[b], 'batch', pid, b, '0', os.environ.get('SEED', '1'), str(w), '8', str(int(n) // 8), '60', out, 'w%d' % w]) for w in range(8)]
    for q in ps:
        q.wait()
    cnt = collections.Counter()
    ex = {}
    runs = 0
    for f in glob.glob(out + '/rec-*'):
        for l in open(f, errors='replace'):
            if l[0] in 'VNX':
                a = l.split(None, 3)
                cnt[a[0] + ' ' + (a[2] if l[0] == 'V' else '')] += 1
                ex.setdefault(a[2] if len(a) > 2 else l, (a[1], l.strip()[:150]))
            runs += l[0] == 'R'
    print(name, pid, b, 'runs', runs, dict(cnt) or 'MISSED', flush=True)
    for k, v in ex.items():
        print('    ', v[1])
