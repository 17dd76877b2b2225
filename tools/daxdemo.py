# Minimal raw client of the tag server for the demonstrations; starts the server built in ./build in a scratch directory.
import os, socket, struct, subprocess, tempfile, time, shutil, signal, sys
T = dict(BOOL=0x10, BYTE=0x03, SINT=0x13, CHAR=0x23, WORD=0x04, INT=0x14, UINT=0x24, DWORD=0x05, DINT=0x15, UDINT=0x25, REAL=0x35, LWORD=0x06, LINT=0x16, ULINT=0x26, TIME=0x36, LREAL=0x46)
REG, ADD, DEL, GET, LIST, READ, WRITE, MWRITE, EADD, EDEL, EGET, EOPT, CDT, CDTGET, MADD, MDEL, MGET, GADD, GDEL, GREAD, GWRITE, GMWRITE, ATOMIC, OADD, ODEL, OGET, OSET = range(1, 28)
class Server:
    def __init__(self, repo=None):
        self.repo = repo or os.getcwd(); self.dir = tempfile.mkdtemp(prefix='daxdemo'); self.sock = self.dir + '/s'; self.p = None; self.start()
    def start(self):
        if os.path.exists(self.sock): os.unlink(self.sock)
        self.p = subprocess.Popen([self.repo + '/build/src/server/tagserver', '-C', '/dev/null', '-S', self.sock], cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try:
                s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close(); return
            except OSError: time.sleep(0.03)
        raise SystemExit('server did not start')
    def stop(self, sig=signal.SIGKILL):
        if self.p and self.p.poll() is None:
            self.p.send_signal(sig)
            try: self.p.wait(10)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def alive(self): return self.p.poll() is None
    def done(self):
        self.stop(); shutil.rmtree(self.dir, ignore_errors=True)
class Lost(Exception): pass
class Conn:
    def __init__(self, srv, name='demo', reg=True):
        self.s = socket.socket(socket.AF_UNIX); self.s.connect(srv.sock); self.s.settimeout(10); self.b = b''; self.ev = []
        if reg: self.req(REG, struct.pack('>II', 1000, 1) + name.encode() + b'\0')
    def send(self, cmd, d): self.s.sendall(struct.pack('>II', len(d) + 8, cmd) + d)
    def frame(self, timeout=10):
        self.s.settimeout(timeout)
        while True:
            if len(self.b) >= 8:
                n, c = struct.unpack('>II', self.b[:8])
                if len(self.b) >= 8 + n:
                    d = self.b[8:8 + n]; self.b = self.b[8 + n:]
                    if c & 0x80000000: self.ev.append((c & 0x7fffffff,) + struct.unpack('>ii', d[:8]) + (d[8:],)); return None
                    return c, d
            try: x = self.s.recv(65536)
            except socket.timeout: return False
            except OSError: raise Lost()
            if not x: raise Lost()
            self.b += x
    def ans(self, timeout=10):
        while True:
            f = self.frame(timeout)
            if f is None: continue
            if f is False: raise Lost('no answer')
            return f
    def req(self, cmd, d):
        self.send(cmd, d); c, r = self.ans()
        return (struct.unpack('i', r[:4])[0] if c & 0x02000000 else 0), r
    def drain(self, t=0.3):
        end = time.time() + t
        while time.time() < end: 
            if self.frame(max(0.01, end - time.time())) is False: break
        e = self.ev; self.ev = []; return e
    def close(self): self.s.close()
    def add(self, name, type, count, attr=0):
        e, r = self.req(ADD, struct.pack('III', T.get(type, type) if isinstance(type, str) else type, count, attr) + name.encode() + b'\0'); return e if e else struct.unpack('i', r[:4])[0]
    def read(self, idx, off, n):
        e, r = self.req(READ, struct.pack('iII', idx, off, n)); return e if e else r
    def write(self, idx, off, d): return self.req(WRITE, struct.pack('iI', idx, off) + d)[0]
    def mask(self, idx, off, d, m): return self.req(MWRITE, struct.pack('iI', idx, off) + d + m)[0]
    def event(self, idx, byte, bit, count, size, type, et, data=b''):
        e, r = self.req(EADD, struct.pack('iIIIII', idx, byte, count, T[type], et, size) + bytes([bit]) + (data + b'\0' * 16)[:16]); return e if e else struct.unpack('i', r[:4])[0]
    def handle(self, idx, byte, bit, count, size, type): return struct.pack('iI', idx, byte) + bytes([bit]) + struct.pack('III', count, size, T[type])
    def atomic(self, idx, byte, bit, count, type, op, data): return self.req(ATOMIC, struct.pack('iIII', idx, byte, count, T[type]) + bytes([bit]) + struct.pack('H', op) + b'\0\0' + data)[0]
    def map(self, s, d):
        e, r = self.req(MADD, s + d); return e if e else struct.unpack('i', r[:4])[0]
    def group(self, hs):
        e, r = self.req(GADD, bytes([len(hs), 0]) + b''.join(hs)); return e if e else struct.unpack('I', r[:4])[0]
def check(c, what):
    if not c: print('FAILED:', what); main.srv.done() if main.srv else None; os._exit(1)
class main: srv = None
def run(f):
    s = Server(); main.srv = s
    try: f(s)
    except Lost as e: print('FAILED: connection lost', e); s.done(); sys.exit(1)
    except Exception as e: print('FAILED:', repr(e)); s.done(); sys.exit(1)
    s.done(); print('ok')
# the client library through ctypes
import ctypes as C
class H(C.Structure): _fields_ = [('index', C.c_int32), ('byte', C.c_uint32), ('bit', C.c_ubyte), ('count', C.c_uint32), ('size', C.c_uint32), ('type', C.c_uint32)]
class ID(C.Structure): _fields_ = [('index', C.c_int32), ('id', C.c_int32)]
class Lib:
    CB = C.CFUNCTYPE(None, C.c_void_p, C.c_void_p)
    def __init__(self, srv, name='libdemo', timeout='1000'):
        self.l = l = C.CDLL((srv.repo or os.getcwd()) + '/build/src/lib/libdax.so'); l.dax_init.restype = C.c_void_p; l.dax_fqn.restype = C.c_void_p; l.dax_group_add.restype = C.c_void_p; l.dax_cdt_new.restype = C.c_void_p
        self.ds = C.c_void_p(l.dax_init(name.encode())); self.keep = []
        av = (C.c_char_p * 6)(name.encode(), b'-U', srv.sock.encode(), b'-O', timeout.encode(), None); l.dax_configure(self.ds, 5, av, 4)
        if l.dax_connect(self.ds): raise Lost('library cannot connect')
    def add(self, name, type, count, attr=0):
        h = H(); r = self.l.dax_tag_add(self.ds, C.byref(h), name.encode(), T.get(type, type), count, attr); return h if r == 0 else r
    def handle(self, s, n=0):
        h = H(); r = self.l.dax_tag_handle(self.ds, C.byref(h), s.encode(), n); return h if r == 0 else r
    def write(self, h, d): return self.l.dax_tag_write(self.ds, h, C.create_string_buffer(d, max(len(d), h.size)))
    def mask(self, h, d, m): return self.l.dax_tag_mask(self.ds, h, C.create_string_buffer(d, max(len(d), h.size)), C.create_string_buffer(m, max(len(m), h.size)))
    def read(self, h):
        b = C.create_string_buffer(h.size); r = self.l.dax_tag_read(self.ds, h, b); return b.raw if r == 0 else r
    def event(self, h, type, f, data=None):
        i = ID(); cb = self.CB(lambda ds, u: f()); self.keep.append(cb)
        r = self.l.dax_event_add(self.ds, C.byref(h), type, data, C.byref(i), cb, None, None); return i if r == 0 else r
    def poll(self): i = ID(); r = self.l.dax_event_poll(self.ds, C.byref(i)); return r
    def wait(self, ms): i = ID(); return self.l.dax_event_wait(self.ds, ms, C.byref(i))
