#!/usr/bin/env python3
"""Development aid: corpus.py COMMIT NAME PROP:BUILD:COUNT... - finds, in the tree before
the fix COMMIT, plans that fail there and pass at COMMIT and at HEAD, minimises
them and stores them in corpus/PROP/NAME-n.plan."""
import os, re, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
commit, name, props = sys.argv[1], sys.argv[2], sys.argv[3:]
top = '/tmp/corpus/' + name
shutil.rmtree(top, ignore_errors=True)
os.makedirs(top)
def make(rev, b):
    repo = '%s/repo-%s' % (top, rev.replace('^', 'p'))
    if not os.path.exists(repo):
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        if rev.startswith('-'):
            subprocess.run(['git', '-C', repo, 'revert', '-n', rev[1:]], check=True)
        else:
            subprocess.run(['git', '-C', repo, 'checkout', '-q', rev], check=True)
    out = repo + '-build'
    os.makedirs(out, exist_ok=True)
    if not os.path.exists(out + '/h' + b):
        shutil.copytree(HERE + '/build/h' + b, out + '/h' + b)
    r = subprocess.run(['python3', HERE + '/build.py', b], env=dict(os.environ, VERIF_REPO=repo, VERIF_OUT=out), capture_output=True, text=True, check=True)
    return r.stdout.split()[-1]
def rep(exe, f):
    o = subprocess.run([exe, 'replay', f], capture_output=True, text=True, errors='replace').stdout
    m = re.search(r'^RESULT violated=(\d) hash=(\w+) class=(\S+) ?(.*)', o, re.M)
    return m.groups()
for p in props:
    pid, b, n = p.split(':')
    old, new, head = (make(commit, b), make('HEAD', b), None) if commit[0] == '-' else (make(commit + '^', b), make(commit, b), None)
    head = glob.glob(HERE + '/build/%s-*/sim' % b)[0]
    out = '%s/out-%s-%s' % (top, pid, b)
    os.makedirs(out)
    ps = [subprocess.Popen([old, 'batch', pid, b, '0', '1', str(w), '8', str(int(n) // 8), '60', out, 'w%d' % w]) for w in range(8)]
    for q in ps: q.wait()
    found, classes = 0, set()
    for f in sorted(glob.glob(out + '/viol-*.plan')):
        if found >= 2: break
        a, c, h = rep(old, f), rep(new, f), rep(head, f)
        if a[0] != '1' or h[0] != '0' or (c[0] != '0' and c[2] == a[2]) or a[2] in classes: continue
        m = out + '/min.plan'
        subprocess.run([old, 'min', f, m, '30'], capture_output=True)
        a, c, h = rep(old, m), rep(new, m), rep(head, m)
        if a[0] != '1' or c[0] != '0' or h[0] != '0':
            m = f
            a, c, h = rep(old, m), rep(new, m), rep(head, m)
            if a[0] != '1' or c[0] != '0': continue
        classes.add(a[2])
        found += 1
        os.makedirs(HERE + '/corpus/' + pid, exist_ok=True)
        dst = HERE + '/corpus/%s/%s-%d.plan' % (pid, name, found)
        t = ''.join(l for l in open(m) if not l.startswith('#'))
        open(dst, 'w').write('# before the fix: %s: %s\n' % (a[2], a[3]) + t)
        print(pid, name, a[2], a[3][:120], flush=True)
    if not found: print(pid, name, 'NOTHING')
shutil.rmtree(top, ignore_errors=True)
