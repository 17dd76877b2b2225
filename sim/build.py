#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/build (content-hashed, parallel)."""
import os, sys, hashlib, subprocess, glob, re, json, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(REPO, 'src'); SIM = os.path.join(VERIF, 'sim')
OBJ = os.path.join(OUT, 'obj'); os.makedirs(OBJ, exist_ok=True)
lock = open(os.path.join(OUT, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
def sh(*a, **k):
    r = subprocess.run(list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode: sys.stderr.write('build failed: %s\n%s\n' % (' '.join(a)[:300], r.stdout[-6000:])); sys.exit(2)
    return r.stdout
def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p): return open(p, 'rb').read()
def write(p, s):
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
# ---- config.h as cmake would generate it on Linux
inc = os.path.join(OUT, 'inc'); os.makedirs(inc, exist_ok=True)
top = open(os.path.join(REPO, 'CMakeLists.txt')).read()
ver = {}
for k in ('MAJOR', 'MINOR'):
    m = re.search(r'OpenDAX_VERSION_%s\s+(\d+)' % k, top); ver[k] = m.group(1) if m else '0'
vals = {'HAVE_STRING_H': '1', 'HAVE_STRINGS_H': '1', 'HAVE_SYS_SELECT_H': '1', 'HAVE_PROCDIR': '1', 'OS_LINUX': '1'}
cfg = open(os.path.join(SRC, 'config.h.in')).read()
cfg = cfg.replace('@OpenDAX_VERSION_MAJOR@', ver['MAJOR']).replace('@OpenDAX_VERSION_MINOR@', ver['MINOR'])
cfg = re.sub(r'#cmakedefine (\w+).*', lambda m: '#define %s %s' % (m.group(1), vals.get(m.group(1), '1')), cfg) + '\n'
write(os.path.join(inc, 'config.h'), cfg)
# ---- which sources make up which component, from the project's own CMake files
def srcs(d, target):
    t = re.sub(r'#.*', '', open(os.path.join(SRC, d, 'CMakeLists.txt')).read())
    m = re.search(r'add_(?:executable|library)\(\s*%s\s+([^)]*)\)' % target, t)
    return [os.path.join(SRC, d, x) for x in m.group(1).split() if x.endswith('.c')]
comp = {'server': srcs('server', 'tagserver'), 'lib': srcs('lib', 'dax'), 'log': srcs('lib/logger', 'daxlog'),
        'modbus': srcs('modules/modbus', 'modbus_module'), 'master': srcs('master', 'master'),
        'daxlua': srcs('modules/daxlua', 'daxlua_module'), 'luabind': srcs('lib/lua', 'daxlua_library')}
hdrs = sorted(glob.glob(SRC + '/**/*.h', recursive=True))
hh = sha(cfg, *[rd(h) for h in hdrs])
luainc = '/usr/include/lua5.4'
INC = ['-I' + inc, '-I' + SRC, '-I' + SRC + '/lib', '-I' + SRC + '/lib/lua', '-I' + SRC + '/lib/logger', '-I' + luainc]
CF = ['gcc', '-O1', '-g1', '-fsanitize=address', '-fsanitize-coverage=trace-pc', '-fno-omit-frame-pointer', '-DHAVE_SQLITE', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0']
CXF = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-I' + SIM, '-I' + SRC, '-I' + SRC + '/lib', '-I' + luainc]
simsrc = sorted(glob.glob(SIM + '/*.cc')); simh = sorted(glob.glob(SIM + '/*.h'))
shh = sha(*[rd(h) for h in simh], rd(SRC + '/opendax.h'))
redef = sh('bash', SIM + '/gen_redefine.sh', *[s for s in simsrc if os.path.basename(s) in ('syscalls.cc', 'procs.cc')])
write(os.path.join(OUT, 'redefine'), redef)
def cc(src, cname):
    flags = CF + INC + ['-I' + os.path.dirname(src)]
    k = sha(src, cname, rd(src), hh, redef, ' '.join(flags))
    o = os.path.join(OBJ, '%s-%s-%s.o' % (cname, os.path.basename(src)[:-2], k))
    if not os.path.exists(o):
        t = o + '.tmp%d.o' % os.getpid()
        sh(*flags, '-c', src, '-o', t)
        sh('objcopy', '--redefine-syms=' + os.path.join(OUT, 'redefine'),
           '--rename-section', '.data=simdata,alloc,load,data,contents', '--rename-section', '.data.rel.local=simdata,alloc,load,data,contents',
           '--rename-section', '.data.rel=simdata,alloc,load,data,contents', '--rename-section', '.bss=simbss', t)
        os.rename(t, o)
    return o
def cxx(src):
    k = sha(src, rd(src), shh, ' '.join(CXF)); o = os.path.join(OBJ, 'sim-%s-%s.o' % (os.path.basename(src)[:-3], k))
    if not os.path.exists(o):
        t = o + '.tmp%d.o' % os.getpid(); sh(*CXF, '-c', src, '-o', t); os.rename(t, o)
    return o
ex = ThreadPoolExecutor(8)
futs = {c: [ex.submit(cc, s, c) for s in l] for c, l in comp.items()}
sf = [ex.submit(cxx, s) for s in sorted(simsrc, key=lambda p: -os.path.getsize(p))]
objs = {c: [f.result() for f in l] for c, l in futs.items()}; so = [f.result() for f in sf]
def part(name, olist, main):
    k = sha(name, *olist); o = os.path.join(OBJ, 'part-%s-%s.o' % (name, k))
    if not os.path.exists(o):
        t = o + '.tmp%d.o' % os.getpid(); sh('ld', '-r', '-o', t, *olist)
        sh('objcopy', '--redefine-sym', 'main=' + main, t); sh('objcopy', '--keep-global-symbol=' + main, t); os.rename(t, o)
    return o
parts = [part('server', objs['server'] + objs['log'], 'srv_main'), part('modbus', objs['modbus'], 'modbus_main'), part('master', objs['master'] + objs['log'], 'master_main'), part('daxlua', objs['daxlua'] + objs['luabind'], 'daxlua_main')]
link = so + parts + objs['lib'] + objs['log']
k = sha(*link); exe = os.path.join(OUT, 'simrun-' + k)
if not os.path.exists(exe):
    t = exe + '.tmp'; sh('g++', '-fsanitize=address', '-no-pie' if False else '-pie', '-o', t, *link, '-llua5.4', '-lsqlite3', '-lpthread', '-lm', '-ldl', '-rdynamic'); os.rename(t, exe)
    # keep the build directory small
    keep = set(link + sum(objs.values(), []) + so + parts)
    for f in glob.glob(OBJ + '/*.o'):
        if f not in keep: os.unlink(f)
    for f in glob.glob(OUT + '/simrun-*'):
        if f != exe: os.unlink(f)
print(exe)
