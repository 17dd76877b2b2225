#!/usr/bin/env python3
"""check.py PROPERTY: rebuilds the simulator from /repo's working tree and searches seeded simulated runs for a violation.
Exit 0: held on everything explored; 1: a VIOLATION line and a replay file; 2: the check itself could not run."""
import os, sys, subprocess
V = os.path.dirname(os.path.abspath(__file__))
prop = sys.argv[1]; extra = sys.argv[2:]
seed = os.environ.get('VERIF_SEED', '1'); tier = os.environ.get('VERIF_TIER', 'quick')
if tier not in ('quick', 'thorough'): tier = 'quick'
try: seed = str(int(seed) & 0xffffffff)
except ValueError: seed = '1'
secs = os.environ.get('SIM_SECONDS') or ('40' if tier == 'quick' else '1200')
os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replays', exist_ok=True)
b = subprocess.run([sys.executable, V + '/sim/build.py'], stdout=subprocess.PIPE, text=True)
if b.returncode: sys.stderr.write('the simulator could not be built from /repo\n'); sys.exit(2)
exe = b.stdout.strip().splitlines()[-1]
env = dict(os.environ); env.pop('SIM_REEXEC', None)
r = subprocess.run([exe, '--prop', prop, '--seed', seed, '--seconds', secs, '--jobs', str(os.cpu_count() or 8), '--tier', tier, '--minlimit', '40' if tier == 'quick' else '120',
                    '--evidence', '%s/evidence/%s.json' % (V, prop), '--replaydir', V + '/replays'] + extra, env=env)
sys.stdout.flush()
known = V + '/known_findings.txt'
if r.returncode == 0 and os.path.exists(known):
    for l in open(known):
        if l.startswith('KNOWN-FINDING: property=%s ' % prop): print(l.strip())
sys.exit(r.returncode if r.returncode in (0, 1) else 2)
