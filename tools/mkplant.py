#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a definition file: edits of /repo's HEAD, a demonstration and what it needs."""
import re, sys, os, json, shutil, subprocess, tempfile
V = '/verif'
def plant(id, prop, edits, demo, needs, breaks, extra=None, shell=None):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    d = '%s/seeded/%s' % (V, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='mkplant'); subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    for f, old, new in edits:
        p = w + '/r/' + f; s = open(p).read(); rx = r'\n'.join(r'[ \t]*' + re.escape(l.strip()) for l in old.split('\n')); m = re.findall(rx, s)
        if s.count(old) == 1: s = s.replace(old, new)
        else:
            assert len(m) == 1, (id, f, len(m), old)
            ind = re.match(r'[ \t]*', m[0]).group(0); base = len(re.match(r' *', old).group(0)); s = s.replace(m[0], '\n'.join(ind + l[base:] if l.strip() else l for l in new.split('\n')))
        open(p, 'w').write(s)
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], stdout=subprocess.PIPE, text=True).stdout; open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(w)
    if demo: open(d + '/demo.py', 'w').write('from daxdemo import *\n' + demo.strip('\n') + '\nrun(demo)\n'); shutil.copy(V + '/tools/daxdemo.py', d)
    for n, t in (extra or {}).items(): open(d + '/' + n, 'w').write(t)
    open(d + '/demo.sh', 'w').write(shell or '#!/bin/bash\n# exits 0 where the property holds\nPYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
