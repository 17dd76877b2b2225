#!/usr/bin/env python3
import json, subprocess
exe = subprocess.run(['python3', '/verif/sim/build.py'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
have = {l.split()[0] for l in subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True).stdout.splitlines()}
NOTE = {}
checks, na = [], []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    if p in have:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults, reference-model and invariant oracles, minimised replay',
            'level': 'exploration',
            'level_note': NOTE.get(p, 'The real code runs in one process under a seeded scheduler; every explored run satisfied the oracle. Not exhaustive. Trusted: the simulated system calls, the reference model and the assumption that preemption happens only at simulated calls and compiled control-flow edges.')})
    else: na.append({'property': p, 'reason': 'no check has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo: the seams are put in at link time (symbols of the compiled sources are redirected with objcopy). See DESIGN.md.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print([c['property'] for c in checks], [n['property'] for n in na])
