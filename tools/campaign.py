#!/usr/bin/env python3
"""Development aid: mutation campaign. Makes small mechanical changes to the
library, keeps those that compile and pass the library's own test program, and
runs short batches of every check against each. Prints what nothing caught.
Works in /tmp/mt; nothing is changed in /repo.

campaign.py OUT.jsonl FILE:FUNCTION_REGEX... [-n LIMIT] [-s SEED]"""
import glob, json, os, random, re, shutil, subprocess, sys, threading, queue, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import build as B

ORDER = os.environ.get('ORDER', 'C08 C04 C06 C07 C01 C18 C10 C11 C17 C16 C03 C05 C02 C19 C20 C15 C21 C09 C12 C13 C24 C26 C27 C25').split()
COUNT = int(os.environ.get('COUNT', '700'))
W = int(os.environ.get('WORKERS', '8'))


def functions(text):
    """yields (name, first line, last line) of top-level functions"""
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        m = re.match(r'^(?:[\w ]+[ *]+)?(\w+)\(', lines[i])
        if m and not lines[i].startswith(('typedef', '#')):
            j = i
            while j < len(lines) and not lines[j].rstrip().endswith(('{', ';')):
                j += 1
            if j < len(lines) and lines[j].rstrip().endswith('{'):
                k = j
                while lines[k] != '}':
                    k += 1
                yield (m.group(1), j + 1, k - 1)
                i = k
        i += 1


def mutants(path, rx):
    text = open(path).read()
    lines = text.split('\n')
    out = []

    def add(a, b, new, kind):
        out.append((a, b, new, kind))
    for name, lo, hi in functions(text):
        if not re.search(rx, name):
            continue
        i = lo
        skip = 0
        incomment = False
        while i <= hi:
            l = lines[i]
            s = l.strip()
            if s.startswith('#if') and ('WIN32' in s or 'WASI' in s or '__wasi' in s or 'EMSCR' in s or 'APPLE' in s):
                skip += 1
            elif skip and s.startswith('#if'):
                skip += 1
            elif skip and s.startswith(('#else', '#elif')) and skip == 1 and 'WIN32' in ''.join(lines[max(0, i - 12):i]):
                skip = 0
            elif skip and s.startswith('#endif'):
                skip -= 1
            if s.startswith('/*'):
                incomment = '*/' not in s
                i += 1
                continue
            if incomment:
                incomment = '*/' not in s
                i += 1
                continue
            if skip or not s or s.startswith(('#', '//', '*', '{', '}')) and not s.startswith('} while'):
                i += 1
                continue
            # conditions
            m = re.match(r'^(\s*)(} else if|else if|if|while|} while) \(', l)
            if m and 'CHECK' not in l:
                # find the closing parenthesis
                depth, pos, a = 0, l.index('(', len(m.group(1))), i
                start = pos
                j = i
                done = False
                while not done:
                    t = lines[j]
                    k = pos if j == i else 0
                    while k < len(t):
                        if t[k] == '(':
                            depth += 1
                        elif t[k] == ')':
                            depth -= 1
                            if depth == 0:
                                done = True
                                break
                        k += 1
                    if not done:
                        j += 1
                cond = (lines[i][start + 1:] if j > i else lines[i][start + 1:k]) + ('' if j == i else '\n' + '\n'.join(lines[i + 1:j] + [lines[j][:k]]))
                tail = lines[j][k + 1:]
                head = lines[i][:start]
                if 'while' not in m.group(2):
                    add(i, j, head + '(((' + cond + '), 0))' + tail, 'never')
                    add(i, j, head + '(((' + cond + '), 1))' + tail, 'always')
            for pat, rep in ((r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
                             (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+= ', ' -= '), (r' -= ', ' += '),
                             (r' \+ ', ' - '), (r' - ', ' + '), (r'\breturn 0;', 'return 1;'), (r'\breturn 1;', 'return 0;'), (r'\bret = 0;', 'ret = 1;'),
                             (r'\bret = 1;', 'ret = 0;'), (r' % ', ' / '), (r'wrlock\(', 'rdlock('), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'),
                             (r'URKEL_E\w+;', 'URKEL_EINVAL;'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r' & ', ' | '), (r' \| ', ' & '), (r' \* ', ' + ')):
                for q in re.finditer(pat, l):
                    add(i, i, l[:q.start()] + rep + l[q.end():], 'swap%s->%s' % (pat, rep))
            if re.match(r'^\s+[\w>.\-\[\]\*\+]+(\(| [+\-|&]?= |\+\+|--)', l) and not re.match(r'^\s+(return|goto|if|while|for|case|else|CHECK|unsigned|int|size_t|uint\d+_t|const|static|struct|char|switch)\b', l):
                j = i
                while not lines[j].rstrip().endswith(';') and j < hi:
                    j += 1
                if not re.match(r'^\s+\w+ \**\w+( = |;|\[)', l) or re.match(r'^\s+\w+ (\+|-)?= ', l):
                    add(i, j, re.match(r'^\s*', l).group(0) + ';', 'delete')
            if re.match(r'^\s+goto \w+;', l):
                add(i, i, re.match(r'^\s*', l).group(0) + ';', 'delete-goto')
            i += 1
    res = []
    seen = set()
    for a, b, new, kind in out:
        old = '\n'.join(lines[a:b + 1])
        if new == old:
            continue
        t = '\n'.join(lines[:a] + [new] + lines[b + 1:])
        h = hashlib.sha1(t.encode()).hexdigest()
        if h in seen:
            continue
        seen.add(h)
        res.append(dict(file=os.path.relpath(path, '/repo'), line=a + 1, old=old.strip(), new=new.strip(), kind=kind, text=t))
    return res


def sh(cmd, cwd=None, timeout=60, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, ''


def worker(w, q, res, lock):
    top = os.environ.get('MT', '/tmp/mt') + '/w%d' % w
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    repo = top + '/repo'
    sh(['git', 'clone', '-q', '/repo', repo])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=top + '/build')
    os.makedirs(top + '/build')
    for b in ('asan', 'race'):
        if os.path.exists(HERE + '/build/h' + b):
            shutil.copytree(HERE + '/build/h' + b, top + '/build/h' + b)
    srcs = [f for f in ('bits', 'blake2b', 'internal', 'io', 'nodes', 'proof', 'store', 'tree', 'util')]
    obj = top + '/t'
    os.makedirs(obj)
    flags = ['-std=c90', '-O1', '-g', '-w', '-DURKEL_BUILD', '-DURKEL_DEBUG', '-DURKEL_TLS=__thread', '-D_POSIX_C_SOURCE=200112', '-I' + repo + '/include', '-I' + repo + '/src']
    for f in srcs:
        sh(['gcc'] + flags + ['-c', '%s/src/%s.c' % (repo, f), '-o', '%s/%s.o' % (obj, f)])
    for f in ('test', 'utils'):
        sh(['gcc'] + flags + ['-c', '%s/test/%s.c' % (repo, f), '-o', '%s/x%s.o' % (obj, f)])
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        path = repo + '/' + m['file']
        orig = open(path).read()
        open(path, 'w').write(m['text'])
        out = dict((k, m[k]) for k in ('file', 'line', 'old', 'new', 'kind'))
        base = os.path.basename(path)[:-2]
        try:
            unit = 'io' if base.startswith('io') else base
            if base != 'urkel':
                rc, o = sh(['gcc'] + flags + ['-c', '%s/src/%s.c' % (repo, unit), '-o', '%s/%s.o' % (obj, unit)])
                if rc:
                    out['result'] = 'nocompile'
                    continue
                rc, o = sh(['gcc', '-o', obj + '/test'] + glob.glob(obj + '/*.o') + ['-lpthread'])
                if rc:
                    out['result'] = 'nocompile'
                    continue
                shutil.rmtree(top + '/run', ignore_errors=True)
                os.makedirs(top + '/run')
                rc, o = sh([obj + '/test'], cwd=top + '/run', timeout=60)
                if rc:
                    out['result'] = 'tests'
                    continue
            rc, o = sh(['python3', HERE + '/build.py', 'asan'], env=env, timeout=300)
            if rc:
                out['result'] = 'nobuild'
                continue
            exe = o.split()[-1]
            found = None
            order = list(ORDER)
            builds = [(p, 'asan', exe) for p in order]
            if 'lock' in m['old'] or 'lock' in m['new'] or os.environ.get('RACE'):
                rc, o = sh(['python3', HERE + '/build.py', 'race'], env=env, timeout=300)
                if rc == 0:
                    builds = [('C14', 'race', o.split()[-1]), ('C13', 'asan', exe), ('C12', 'asan', exe)] + builds
            for p, b, x in builds:
                d = top + '/out'
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                e = dict(os.environ, SIM_TMP=d)
                subprocess.run([x, 'batch', p, b, '0', '1', '0', '1', str(COUNT), '60', d, 'w'], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                for l in open(d + '/rec-w', errors='replace'):
                    if l[0] in 'VX':
                        found = (p, l.strip()[:160])
                        break
                if found:
                    break
            out['result'] = 'caught' if found else 'SURVIVED'
            out['by'] = found
        finally:
            open(path, 'w').write(orig)
            if base != 'urkel' and out.get('result') != 'nocompile':
                pass
            with lock:
                res.write(json.dumps(out) + '\n')
                res.flush()
            # restore the object of the next mutant's siblings
            if base != 'urkel':
                sh(['gcc'] + flags + ['-c', '%s/src/%s.c' % (repo, unit), '-o', '%s/%s.o' % (obj, unit)])


def main():
    args = sys.argv[2:]
    limit, seed, todo = 10**9, 1, []
    while args:
        a = args.pop(0)
        if a == '-n':
            limit = int(args.pop(0))
        elif a == '-s':
            seed = int(args.pop(0))
        else:
            f, rx = a.split(':', 1)
            todo += mutants('/repo/src/' + f, rx)
    random.Random(seed).shuffle(todo)
    todo = todo[:limit]
    if sys.argv[1] == '-':
        for m in todo:
            print(m['file'], m['line'], m['kind'], '|', m['old'], '=>', m['new'])
        print(len(todo))
        return
    done = set()
    if os.path.exists(sys.argv[1]):
        for l in open(sys.argv[1]):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    q = queue.Queue()
    for m in todo:
        if (m['file'], m['line'], m['new']) not in done:
            q.put(m)
    print(q.qsize(), 'mutants', flush=True)
    lock = threading.Lock()
    with open(sys.argv[1], 'a') as res:
        ts = [threading.Thread(target=worker, args=(w, q, res, lock)) for w in range(W)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


main()
