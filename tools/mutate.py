#!/usr/bin/env python3
"""Mutation sampling: how many small source changes do the checks notice?  usage: mutate.py OUT N SEED WORKERS [file-regex]"""
import os, re, random, shutil, subprocess, sys, json, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
OUT, N, SEED, W = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); PAT = sys.argv[5] if len(sys.argv) > 5 else '.'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = '/repo'; TMP = '/tmp/x/mut'
files = [f for d in ('server', 'lib', 'modules/modbus', 'master', 'modules/daxlua', 'modules/mqtt', 'modules/histlog', 'lib/lua', 'lib/logger') for f in sorted(glob.glob(REPO + '/src/' + d + '/*.c')) if re.search(PAT, f)]
order = {'server': ['C01','C02','C03','C05','C06','C09','C10','C11','C12','C04','C07','C08','C14','C15','C16','C13','C20','C17'], 'lib': ['C01','C14','C16','C20','C13','C03','C06','C10','C09','C11','C05','C15','C17'], 'modules/modbus': ['C17','C18'], 'master': ['C19'], 'modules/daxlua': ['C21'], 'lib/lua': ['C21', 'C17']}
first = {'retain.c': ['C07','C08'], 'func.c': ['C15','C14'], 'mapping.c': ['C11'], 'groups.c': ['C12'], 'atomic.c': ['C10'], 'override.c': ['C13'], 'events.c': ['C05','C06'], 'buffer.c': ['C14','C15'], 'libcdt.c': ['C16'], 'libmsg.c': ['C20'], 'libevent.c': ['C20','C06'], 'libinit.c': ['C20']}
known = subprocess.run([subprocess.run(['python3', V + '/sim/build.py'], capture_output=True, text=True).stdout.split()[-1], '--list'], capture_output=True, text=True).stdout
def muts(path):
    src = open(path).read(); lines = src.split('\n'); out = []; incom = False
    for i, l in enumerate(lines):
        s = l.strip()
        if incom:
            if '*/' in s: incom = False
            continue
        if s.startswith('/*'):
            incom = '*/' not in s; continue
        if not s or s.startswith(('#', '//', '*', 'dax_log', 'static', 'extern', 'DF(', 'printf', 'struct', 'typedef')) or not l.startswith((' ', '\t')): continue
        if 'dax_log' in s or 'printf' in s: continue
        def add(kind, new):
            if new != l: out.append((i, kind, new))
        code = l.split('//')[0]
        for a, b in (('==', '!='), ('!=', '=='), (' < ', ' <= '), (' > ', ' >= '), ('<=', '<'), ('>=', '>'), ('&&', '||'), ('||', '&&'), (' + ', ' - '), (' - ', ' + '), ('++', '--'), (' & ', ' | '), (' | ', ' & '), ('<<', '>>'), ('+=', '-='), ('|=', '&='), ('&=', '|='), ('[n]', '[0]'), ('%', '/'), ('/ 8', '/ 4')):
            for m in re.finditer(re.escape(a), code):
                if a in (' & ',) and '&&' in code[m.start()-1:m.end()+1]: continue
                if a == '%' and '"' in code: continue
                add(a + '->' + b, l[:m.start()] + b + l[m.end():])
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', code):
            if '"' in code: continue
            add('const', l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():])
        m = re.match(r'(\s*)(\}?\s*else\s+)?if\s*\((.*)\)\s*(\{?|return.*;|break;|continue;|goto.*;)$', code.rstrip())
        if m and m.group(3).count('(') == m.group(3).count(')'):
            for v in '01': add('if' + v, '%s%sif(%s) %s' % (m.group(1), m.group(2) or '', v, m.group(4)))
        if re.match(r'\s+[\w\->\.\[\]\*]+\s*(=|\+=|\|=|&=|-=|\+\+|--|\()[^;]*;\s*$', code) and not re.match(r'\s+(int|char|void|unsigned|tag_|dax_|u?int|long|static|struct|return|break|double|float|size_t)\b[^=(]*[;=]', code): add('delete', re.match(r'\s*', l).group(0) + ';')
    return lines, out
pool = []
for f in files:
    lines, ms = muts(f); pool += [(f, m) for m in ms]
random.seed(SEED); random.shuffle(pool)
# spread over the lines: at most one mutant per line
seen = set(); pick = []
for f, m in pool:
    if (f, m[0]) in seen: continue
    seen.add((f, m[0])); pick.append((f, m))
    if len(pick) >= N: break
print('%d mutants possible, %d picked' % (len(pool), len(pick)), flush=True)
free = list(range(W))
def one(job):
    f, (ln, kind, new) = job; w = free.pop()
    try:
        d = '%s/w%d' % (TMP, w); rel = os.path.relpath(f, REPO)
        if not os.path.exists(d): os.makedirs(d); shutil.copy(REPO + '/CMakeLists.txt', d); shutil.copytree(REPO + '/src', d + '/src')
        lines = open(f).read().split('\n'); old = lines[ln]; lines[ln] = new
        open(d + '/' + rel, 'w').write('\n'.join(lines))
        env = dict(os.environ, SIM_REPO=d, SIM_BUILD='%s/b%d' % (TMP, w)); res = None
        try:
            b = subprocess.run(['python3', V + '/sim/build.py'], env=env, capture_output=True, text=True)
            if b.returncode: res = 'nobuild'
            else:
                exe = b.stdout.split()[-1]; base = os.path.basename(f); dirn = os.path.dirname(os.path.relpath(f, REPO + '/src'))
                ps = first.get(base, []) + [p for p in order.get(dirn, []) if p not in first.get(base, [])]
                for k, p in enumerate([p for p in ps if p in known]):
                    try: r = subprocess.run([exe, '--prop', p, '--seed', '1', '--seconds', '8' if k < 3 else '5', '--jobs', '2'], capture_output=True, text=True, timeout=200)
                    except subprocess.TimeoutExpired: res = p + ' TIMEOUT'; break
                    m = re.search(r'^violation: (.*)', r.stdout, re.M)
                    if m: res = p + ' ' + m.group(1)[:90]; break
                    if r.returncode: res = p + ' rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-100:].replace('\n', ' ')); break
        finally: shutil.copy(f, d + '/' + rel)
        rec = dict(file=rel, line=ln + 1, kind=kind, old=old.strip(), new=new.strip(), res=res)
        with open(OUT, 'a') as o: o.write(json.dumps(rec) + '\n')
    finally: free.append(w)
with ThreadPoolExecutor(W) as ex: list(ex.map(one, pick))
