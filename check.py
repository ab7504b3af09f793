#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property by seeded simulation.

Exit 0: no violation in anything explored. Exit 1 with a line
"VIOLATION property=ID replay=PATH": broken. Anything else: an error of the
check itself."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import build as B
import config as C

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
SIM_ENV = dict(os.environ)


def say(s):
    print(s, flush=True)


def die(msg):
    say('ERROR: ' + msg)
    sys.exit(2)


def replay(exe, path):
    p = subprocess.run([exe, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=SIM_ENV, text=True, errors='replace')
    m = re.search(r'^RESULT violated=(\d) hash=(\w+) class=(\S+) ?(.*)$', p.stdout, re.M)
    if not m:
        die('replay of %s gave no result (status %d)' % (path, p.returncode))
    return m.group(1) == '1', m.group(2), m.group(3), m.group(4)


def plan_build(path):
    for l in open(path, errors='replace'):
        if l.startswith('build '):
            return l.split()[1]
    return 'asan'


def plan_body(path):
    return ''.join(l for l in open(path, errors='replace') if not l.startswith('#'))


class Totals:
    def __init__(self):
        self.st = {}
        self.fired = {}
        self.probes = {}
        self.tuples = set()
        self.hashes = set()
        self.nontrivial = set()
        self.runs = 0
        self.dets = 0
        self.per_build = {}

    def add_json(self, j):
        for k, v in j.items():
            if k == 'fired':
                for a, n in v.items():
                    self.fired[a] = self.fired.get(a, 0) + n
            elif k == 'probes':
                for a, n in v.items():
                    self.probes[a] = self.probes.get(a, 0) + n
            elif k == 'tuples':
                self.tuples.update(v)
            else:
                self.st[k] = self.st.get(k, 0) + v


def batch(exe, prop, build, tier, seed, count, wall, workers, tot, tmp):
    """Runs one batch; returns (violations, nondeterministic, errors)."""
    d = os.path.join(tmp, build)
    os.makedirs(d)
    per = (count + workers - 1) // workers
    procs = []
    for w in range(workers):
        cmd = [exe, 'batch', prop, build, '1' if tier == 'thorough' else '0', str(seed), str(w), str(workers), str(per), str(wall), d, 'w%d' % w]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=SIM_ENV, start_new_session=True))
    seen_at = None
    t0 = time.time()
    grace = wall + 200
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if seen_at is None and (int((time.time() - t0) * 10) % 5 == 0):
            for f in glob.glob(d + '/viol-*.plan'):
                seen_at = time.time()
                break
        if (seen_at and time.time() - seen_at > 4) or time.time() - t0 > grace:
            for p in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
    for p in procs:
        p.wait()
    viol, nondet, errs = [], [], []
    if time.time() - t0 > grace:
        errs.append('batch did not end')
    nonzero = [p.returncode for p in procs if p.returncode not in (0, -9)]
    if nonzero:
        errs.append('simulator exit status %s' % nonzero)
    n = 0
    for f in sorted(glob.glob(d + '/rec-*')):
        for l in open(f, errors='replace'):
            if l.startswith('R '):
                a = l.split()
                if len(a) < 6:
                    continue
                n += 1
                if a[2] == '0':
                    continue
                h = (build, a[2])
                tot.hashes.add(h)
                if int(a[3]) or int(a[5]):
                    tot.nontrivial.add(h)
            elif l.startswith('V '):
                a = l.rstrip('\n').split(' ', 3)
                viol.append((int(a[1]), a[2], a[3] if len(a) > 3 else ''))
            elif l.startswith('N '):
                nondet.append(l.strip())
            elif l.startswith('D'):
                tot.dets += 1
            elif l.startswith('S '):
                try:
                    tot.add_json(json.loads(l[2:]))
                except ValueError:
                    pass
            elif l.startswith('X '):
                errs.append(l.strip())
    # plans whose record line was lost when the workers were stopped
    known = {v[0] for v in viol}
    for f in glob.glob(d + '/viol-*.plan'):
        i = int(re.search(r'viol-(\d+)', f).group(1))
        if i not in known:
            viol.append((i, '?', ''))
    tot.runs += n
    tot.per_build[build] = n
    viol.sort()
    return [(i, c, m, '%s/viol-%08d.plan' % (d, i)) for i, c, m in viol], nondet, errs


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            if l.startswith('known: property=%s ' % prop):
                m = re.match(r'known: property=\S+ replay=(\S+) class=(\S+) (.*)', l.strip())
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = C.CHECKS[prop]
    t0 = time.time()
    say('check %s tier=%s seed=%d' % (prop, tier, seed))
    tmp = tempfile.mkdtemp(prefix='urkelsim-')
    SIM_ENV['SIM_TMP'] = tmp
    try:
        rc = run(prop, tier, seed, cfg, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, cfg, t0, tmp):
    shares = cfg['builds']
    corpus = sorted(glob.glob(os.path.join(HERE, 'corpus', prop, '*.plan')))
    need = sorted(set(b for b, _ in shares) | set(plan_build(c) for c in corpus))
    exe = {}
    for b in need:
        exe[b] = B.build(b)
    t_build = time.time() - t0
    known = known_findings(prop)
    known_bodies = {}
    for path, cls, text in known:
        f = os.path.join(HERE, path)
        v, h, c, m = replay(exe.get(plan_build(f)) or B.build(plan_build(f)), f)
        if v and c == cls:
            known_bodies[plan_body(f)] = cls
            say('KNOWN-FINDING: property=%s %s' % (prop, text))
    reported = []
    # the histories that once failed
    for c in corpus:
        v, h, cls, msg = replay(exe[plan_build(c)], c)
        if v:
            v2, h2, cls2, _ = replay(exe[plan_build(c)], c)
            if not v2 or cls2 != cls or h2 != h:
                die('replay of %s is not repeatable' % c)
            if plan_body(c) in known_bodies:
                continue
            say('%s: %s' % (cls, msg))
            reported.append((cls, msg, os.path.relpath(c, HERE)))
    tot = Totals()
    workers = max(1, min(8, os.cpu_count() or 1))
    errs, nondet = [], []
    t1 = time.time()
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '-*.plan')):
        os.unlink(f)
    rounds = 1 if tier == 'quick' else 1000
    budget = cfg.get('thorough_s', 600)
    rnd = 0
    while rnd < rounds and not reported and not errs:
        if rnd and time.time() - t1 > budget:
            break
        for b, count in shares:
            wall = 240 if tier == 'quick' else max(5, budget - (time.time() - t1))
            n = count if tier == 'quick' else count * 3
            dd = os.path.join(tmp, 'r%d' % rnd)
            viol, nd, er = batch(exe[b], prop, b, tier, seed + rnd * 1000003, n, wall, workers, tot, dd)
            nondet += nd
            errs += er
            classes = set(c for c, _, _ in reported)
            ungated = []
            for i, cls, msg, path in viol:
                if len(classes) >= 3 or (cls in classes):
                    continue
                r1 = replay(exe[b], path)
                r2 = replay(exe[b], path)
                if not (r1[0] and r2[0] and r1[1:3] == r2[1:3]):
                    ungated.append('run %d (%s %s)' % (i, cls, msg))
                    continue
                cls, msg = r1[2], r1[3]
                if cls in classes:
                    continue
                out = os.path.join(rdir, '%s-%s-%d-%08d.plan' % (prop, b, seed + rnd * 1000003, i))
                subprocess.run([exe[b], 'min', path, out, '20'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=SIM_ENV)
                good = False
                if os.path.exists(out):
                    m1, m2 = replay(exe[b], out), replay(exe[b], out)
                    good = m1[0] and m2[0] and m1[1:3] == m2[1:3] and m1[2] == cls
                    if good:
                        msg = m1[3]
                if not good:
                    shutil.copy(path, out)
                if plan_body(out) in known_bodies:
                    continue
                classes.add(cls)
                say('%s: %s' % (cls, msg))
                reported.append((cls, msg, os.path.relpath(out, HERE)))
            if ungated and not reported:
                errs.append('violations that do not replay: ' + '; '.join(ungated[:3]))
            shutil.rmtree(dd, ignore_errors=True)
            if reported or errs:
                break
        rnd += 1
    if nondet and not reported:
        errs.append('runs that differ when repeated: ' + '; '.join(nondet[:3]))
    wall = time.time() - t0
    evidence(prop, tier, seed, cfg, tot, reported, corpus, wall, time.time() - t1, t_build, exe)
    if reported:
        for cls, msg, path in reported:
            say('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        die('; '.join(errs[:5]))
    if tot.runs == 0:
        die('nothing was run')
    dead = [p for p in cfg.get('probes', []) if not tot.probes.get(p)]
    if dead:
        say('note: never reached in this run: ' + ', '.join(dead))
    say('%s held: %d runs, %d distinct, %.0f s' % (prop, tot.runs, len(tot.hashes), wall))
    return 0


def evidence(prop, tier, seed, cfg, tot, reported, corpus, wall, search, t_build, exe):
    fired = {}
    for k, v in tot.fired.items():
        a, s = k.split(':', 1)
        fired.setdefault(a, {})[s] = v
    st = tot.st
    for k in ('power', 'damage', 'tamper', 'crash_idle'):
        if st.get(k):
            fired[{'power': 'power loss', 'damage': 'tail damage', 'tamper': 'altered proof', 'crash_idle': 'kill between operations'}[k]] = st[k]
    samples = []
    b = cfg['builds'][0][0]
    for i in (0, 1, 5):
        p = subprocess.run([exe[b], 'gen', prop, b, str(seed), str(i)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=SIM_ENV, text=True)
        t = p.stdout.splitlines()
        samples.append({'run': i, 'plan': t if len(t) <= 60 else t[:60] + ['... %d more lines' % (len(t) - 60)]})
    stray = set()
    for b, e in exe.items():
        for l in open(os.path.join(os.path.dirname(e), 'passthrough')):
            s = l.strip()
            if s and not s.startswith(('__asan', '__ubsan', '__tsan')) and s not in C.PURE:
                stray.add(s)
    hours = max(search, 1e-9) / 3600
    cov = {
        'evaluations': tot.runs,
        'distinct_nontrivial': len(tot.nontrivial),
        'rule': cfg['rule'] + ' Counted as distinct: runs whose event log hash (every simulated call with its result, every scheduling decision, fault and operation) differs; as non-trivial: those in which ' + C.NONTRIVIAL + '.',
        'samples': samples,
        'distinct_event_logs': len(tot.hashes),
        'distinct_fault_points': len(tot.tuples),
        'distinct_fault_points_measure': 'tuples of (operation kind, system call, how many times called before within the operation, fault kind) at which a fault fired or a context switch was forced',
        'runs_per_hour': int(tot.runs / hours),
        'seeds_per_hour': int(tot.runs / hours),
        'simulated_seconds': round(st.get('simtime_us', 0) / 1e6, 1),
        'runs_per_build': tot.per_build,
        'operations': st.get('ops', 0),
        'system_calls': st.get('syscalls', 0),
        'lock_operations': st.get('lockops', 0),
        'memory_accesses_checked': st.get('accesses', 0),
        'context_switches': st.get('switches', 0),
        'preemptions': st.get('preempt', 0),
        'faults_fired': fired,
        'probes': dict(sorted(tot.probes.items())),
        'determinism_reruns': tot.dets,
        'corpus_replays': len(corpus),
        'real_components': C.REAL,
        'stub_components': C.STUB,
        'unsimulated_symbols': sorted(stray),
        'build_seconds': round(t_build, 1),
    }
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
         'assumptions': C.ASSUME + cfg.get('assume', []), 'wall_s': round(wall, 2), 'violations': len(reported)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


if __name__ == '__main__':
    main()
