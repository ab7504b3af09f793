#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and config.py."""
import json, os, subprocess
import config as C
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    'C22': 'A pure function of its input: no schedule, clock, fault, I/O or interleaving can change a hash, checksum or parsed name, so there is nothing to simulate. (The simulator uses its own BLAKE2b as an oracle for roots, proofs and commit records, so a wrong primitive shows up under C03, C09 and C10.)',
    'C23': 'The Windows and WebAssembly back ends (src/io_win.c, the WASI paths) cannot be compiled with the toolchain in this sandbox, so no real code of theirs could run under the simulator.',
}
TECH = {'C14': 'deterministic simulation: seeded scheduling at every memory access, happens-before race detection, memory validity checks'}
NOTE = ('Seeded search over simulated executions of the real library with injected faults; a clean run is evidence over the runs counted in the evidence file, not proof. '
        'Trusted: the simulated kernel, file system and locks (/verif/sim/core.cc), the reference model (/verif/sim/model.cc), the compiler and its sanitizers.')
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        continue
    extra = ' '.join(C.CHECKS[i].get('assume', []))
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': TECH.get(i, 'deterministic simulation with fault injection: seeded search over schedules and fault sequences against a reference model'),
                   'level': 'exploration', 'level_note': NOTE + (' Also assumes that ' + extra + '.' if extra else '')})
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', 'let a simulator set the size limits'], stdout=subprocess.PIPE, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'python3 build.py asan fsync race',
     'hooks': {'guard': 'URKEL_SIM', 'enable': 'build.py compiles the sources of /repo with -DURKEL_SIM, which replaces the size-limit constants of src/store.c by variables the simulator sets', 'source_commits': hook},
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'DESIGN.md explains the simulator. replays/ holds the replay file of the last violation; "build/<variant>-*/sim replay FILE -v" shows it step by step. known-findings.txt lists the defects found and fixed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
