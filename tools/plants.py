#!/usr/bin/env python3
# definitions of the planted bugs (see mkplant.py); python3 tools/plants.py [ID...] rewrites /verif/seeded/<ID>
from mkplant import plant
plant('c05-set-flag', 'C05', [('src/server/events.c', '''                this[i] |= mask; /* Set flag so we don't do this next time */
            }
        } else {
            this[i] &= ~mask; /* Unset flag so event will fire next time */
        }
        bit++;
        if(bit == 8) {
            bit = 0;
            i++;
        }
    }
    return result;
}

static inline int
_event_reset(''', '''                this[i] |= mask; /* Set flag so we don't do this next time */
            }
        } else if(result == 0) {
            this[i] &= ~mask; /* Unset flag so event will fire next time */
        }
        bit++;
        if(bit == 8) {
            bit = 0;
            i++;
        }
    }
    return result;
}

static inline int
_event_reset(''')], '''
def demo(s):
    c = Conn(s); i = c.add('T', 'BOOL', 16)
    check(c.event(i, 0, 0, 8, 1, 'BOOL', 4) >= 0, 'event add')
    c.write(i, 0, bytes([0x02])); check(len(c.drain()) == 1, 'bit 1 set fires')
    c.write(i, 0, bytes([0x01])); check(len(c.drain()) == 1, 'bit 0 set fires while bit 1 is cleared')
    c.write(i, 0, bytes([0x03])); check(len(c.drain()) == 1, 'bit 1 set again fires')
''', 'a SET event over several bits and one write that sets a lower bit while it clears a higher one, followed by a write that sets the higher bit again', 'the second rising edge of the higher bit is not notified')
plant('c09-overlap', 'C09', [('src/server/mapping.c', 'if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {', 'if(offset <= (this->source.byte + this->source.size - 1) && (offset + size) > this->source.byte + (this->source.byte > 0)) {')], '''
def demo(s):
    c = Conn(s); a = c.add('A', 'INT', 8); b = c.add('B', 'INT', 8)
    check(c.map(c.handle(a, 4, 0, 2, 4, 'INT'), c.handle(b, 0, 0, 2, 4, 'INT')) >= 0, 'map add')
    check(c.write(a, 0, bytes([1, 2, 3, 4, 5])) == 0, 'write')
    check(c.read(b, 0, 2) == bytes([5, 0]), 'the first source byte is mapped: %r' % (c.read(b, 0, 2),))
''', 'a map whose source does not start at the beginning of its tag, and a write that reaches only the first byte of the source range', 'the destination misses the change')
plant('c11-grow', 'C11', [('src/server/virtualtag.c', '''        if(q->qread > 0) {
            memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));''', '''        if(q->qread > 1) {
            memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));''')], '''
def demo(s):
    c = Conn(s); q = c.add('Q', 0x40000000 | T['INT'], 1)
    check(q >= 0, 'add'); n = 0; out = 0
    for k in range(40):
        check(c.write(q, 0, struct.pack('h', n)) == 0, 'write'); n += 1
        if k == 3: check(struct.unpack('h', c.read(q, 0, 2))[0] == out, 'first read'); out += 1
    while out < n:
        r = c.read(q, 0, 2); check(isinstance(r, bytes) and struct.unpack('h', r)[0] == out, 'element %d is %r' % (out, r)); out += 1
''', 'a queue that fills up completely and grows after exactly one element has been read since its ring buffer last started at zero', 'elements come out in the wrong order or are lost when the queue grows')
plant('c10-clear', 'C10', [('src/server/tagbase.c', '''        _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
        _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
    }
    tag_size = tag_get_size(idx);
    for(n=0;n<tag_size;n++) {
        if(_db[idx].omask[n])  return 0;''', '''        _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
        _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
    }
    tag_size = tag_get_size(idx);
    for(n=0;n<tag_size;n++) {
        if(_db[idx].odata[n])  return 0;''')], '''
def demo(s):
    c = Conn(s); i = c.add('T', 'INT', 4); c.write(i, 0, struct.pack('4h', 1, 2, 3, 4))
    ov = lambda off, v: c.req(OADD, struct.pack('iII', i, off, 0) + struct.pack('h', v) + b'\\xff\\xff')[0]
    check(ov(0, 0) == 0 and ov(4, 77) == 0, 'override'); check(c.req(OSET, struct.pack('i', i) + b'\\1')[0] == 0, 'set')
    check(c.read(i, 0, 8) == struct.pack('4h', 0, 2, 77, 4), 'overridden')
    check(c.req(ODEL, struct.pack('iI', i, 4) + b'\\xff\\xff')[0] == 0, 'delete one')
    check(c.read(i, 0, 8) == struct.pack('4h', 0, 2, 3, 4), 'the zero override of element 0 stays: %r' % (c.read(i, 0, 8),))
''', 'two overrides on one tag, one of them with the value zero, and the other one deleted', 'the override with value zero vanishes together with the other one')
# ---- second round
plant('c01-split-mask', 'C01', [('src/lib/libdata.c', 'result = dax_mask(ds, handle.index, handle.byte+n, &((uint8_t *)newdata)[n], &mask[n], rsize);', 'result = dax_mask(ds, handle.index, handle.byte+n, &((uint8_t *)newdata)[n], mask, rsize);')], '''
def demo(s):
    l = Lib(s); h = l.add('B', 'BOOL', 20000); check(isinstance(h, H), 'add')
    p = l.handle('B[3]', 19000); check(isinstance(p, H), 'handle')
    check(l.write(p, b'\\xff' * p.size) == 0, 'write'); r = l.read(p)
    check(all(r[n // 8] >> (n % 8) & 1 for n in range(19000)), 'every bit of the range is written')
''', 'a write of more than 16000 bits of a BOOL array that does not start on a byte, so that it is sent as several masked writes', 'the first bits of every part after the first are not written')
plant('c02-leftover', 'C02', [('src/server/buffer.c', '''            node->fd = 0;
            node->index = 0;
            return;''', '''            node->fd = 0;
            return;''')], '''
def demo(s):
    a = Conn(s, 'a'); a.s.sendall(struct.pack('>II', 20, READ)[:6]); time.sleep(0.3); a.close(); time.sleep(0.3)
    b = Conn(s, 'b', reg=False); e, r = b.req(REG, struct.pack('>II', 1000, 1) + b'b\\0'); check(e == 0, 'register')
    i = b.add('T', 'INT', 1); check(i >= 0 and b.write(i, 0, b'\\1\\2') == 0 and b.read(i, 0, 2) == b'\\1\\2', 'the next module gets its own answers')
''', 'a client that dies after it has sent a part of a request, and another connection afterwards', 'the left over bytes are taken for the start of the first request of the next connection')
plant('c04-dec-wide', 'C04', [('src/server/atomic.c', '''    case DAX_LINT:
        *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_lint *)data;''', '''    case DAX_LINT:
        *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_dint *)data;''')], '''
def demo(s):
    c = Conn(s); i = c.add('L', 'LINT', 2); c.write(i, 8, struct.pack('q', 5))
    check(c.atomic(i, 8, 0, 1, 'LINT', 2, struct.pack('q', 3)) == 0, 'small decrement'); check(c.read(i, 8, 8) == struct.pack('q', 2), 'small')
    check(c.atomic(i, 8, 0, 1, 'LINT', 2, struct.pack('q', 1 << 40)) == 0, 'large decrement'); check(c.read(i, 8, 8) == struct.pack('q', 2 - (1 << 40)), 'large')
''', 'an atomic decrement of a LINT by a value that does not fit into 32 bits', 'only the low 32 bits of the operand are subtracted')
plant('c08-atomic-lost', 'C08', [('src/server/atomic.c', '''    event_check(h.index, h.byte, h.size);
    if(_db[h.index].attr & TAG_ATTR_RETAIN) {
        ret_tag_write(h.index);
    }''', '''    event_check(h.index, h.byte, h.size);
    if((_db[h.index].attr & TAG_ATTR_RETAIN) && (_db[h.index].attr & TAG_ATTR_EVENT)) {
        ret_tag_write(h.index);
    }''')], '''
def demo(s):
    c = Conn(s); i = c.add('R', 'DINT', 2, 4); check(i >= 0, 'add'); c.write(i, 0, struct.pack('ii', 7, 8))
    check(c.atomic(i, 4, 0, 1, 'DINT', 1, struct.pack('i', 5)) == 0, 'increment'); check(c.read(i, 0, 8) == struct.pack('ii', 7, 13), 'value')
    s.stop(); s.start(); c = Conn(s); e, r = c.req(GET, bytes([1]) + b'R\\0'); check(e == 0, 'the tag is back')
    i = struct.unpack('i', r[:4])[0]; check(c.read(i, 0, 8) == struct.pack('ii', 7, 13), 'value after restart %r' % (c.read(i, 0, 8),))
''', 'a crash after an atomic operation that was the last change of a retained tag without events', 'the acknowledged result of the operation is gone after the restart')
plant('c06-full-fifo', 'C06', [('src/lib/libevent.c', 'for(n = 0;n<ds->emsg_queue_count-1;n++) {', 'for(n = 0;n<MIN(ds->emsg_queue_count, ds->emsg_queue_size-1)-1;n++) {')], '''
def demo(s):
    l = Lib(s); h = l.add('T', 'INT', 16); got = []
    for k in range(12):
        e = l.handle('T[%d]' % k); check(isinstance(l.event(e, 2, lambda k=k: got.append(k)), ID), 'event')
    c = Conn(s, 'writer')
    for rnd in range(3):
        got.clear()
        for k in range(8): c.write(h.index, k * 2, struct.pack('h', k))
        time.sleep(0.3)
        while l.poll() == 0 and len(got) < 20: pass
        check(got == list(range(8)), 'eight events are dispatched once and in order: %r' % got)
''', 'exactly as many events received as the FIFO of the library holds before the module dispatches the first of them', 'the last event is dispatched twice, from memory that has been freed, and another one never')
plant('c09-bit-dup', 'C09', [('src/server/mapping.c', '''            h1.byte == h2.byte &&
            h1.bit == h2.bit &&''', '''            h1.byte == h2.byte &&''')], '''
def demo(s):
    c = Conn(s); a = c.add('A', 'BOOL', 16); b = c.add('B', 'BOOL', 16)
    m1 = c.map(c.handle(a, 0, 1, 2, 1, 'BOOL'), c.handle(b, 0, 0, 2, 1, 'BOOL')); m2 = c.map(c.handle(a, 0, 5, 2, 1, 'BOOL'), c.handle(b, 0, 4, 2, 1, 'BOOL'))
    check(m1 >= 0 and m2 >= 0, 'maps'); c.write(a, 0, bytes([0x66, 0])); check(c.read(b, 0, 2) == bytes([0x33, 0]), 'both maps copy: %r' % (c.read(b, 0, 2),))
''', 'two maps between the same bytes of two BOOL tags that differ in nothing but the bit they start with', 'the second map is taken for a duplicate and is never carried out')
plant('c12-refused-slot', 'C12', [('src/server/groups.c', '''    mod->tag_groups[index].members = (tag_handle *)malloc(sizeof(tag_handle) * count);
    if(mod->tag_groups[index].members == NULL) return ERR_ALLOC;''', '''    mod->tag_groups[index].members = (tag_handle *)malloc(sizeof(tag_handle) * count);
    if(mod->tag_groups[index].members == NULL) return ERR_ALLOC;
    mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;'''), ('src/server/groups.c', '''    mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
    mod->tag_groups[index].count = count;''', '''    mod->tag_groups[index].count = count;''')], '''
def demo(s):
    c = Conn(s); i = c.add('T', 'BYTE', 4096)
    g = c.group([c.handle(i, 0, 0, 4, 4, 'BYTE')]); check(g >= 0, 'group'); check(c.req(GDEL, struct.pack('I', g))[0] == 0, 'delete')
    r = c.group([c.handle(i, 0, 0, 3000, 3000, 'BYTE'), c.handle(i, 0, 0, 3000, 3000, 'BYTE')]); check(r < 0, 'a group that is too big is refused')
    check(c.req(GREAD, struct.pack('I', g))[0] != 0, 'the deleted group cannot be read'); check(c.group([c.handle(i, 0, 0, 4, 4, 'BYTE')]) == g, 'its number is used again')
''', 'a group that is refused because its members are too big', 'the refused group occupies a number and can be read and written')
plant('c13-last-char', 'C13', [('src/server/tagbase.c', '''        try = min + ((max - min) / 2);

        i = strcmp(name, _index[try].name);
        if(i > 0) {
            min = try + 1;
        } else if(i < 0) {
            max = try - 1;
        } else {
            return _index[try].tag_idx;''', '''        try = min + ((max - min) / 2);

        i = strncmp(name, _index[try].name, DAX_TAGNAME_SIZE - 1);
        if(i > 0) {
            min = try + 1;
        } else if(i < 0) {
            max = try - 1;
        } else {
            return _index[try].tag_idx;''')], '''
def demo(s):
    c = Conn(s); n = 'a' * 31; x = c.add(n + 'x', 'INT', 1); y = c.add(n + 'y', 'INT', 1); check(x >= 0 and y >= 0 and x != y, 'two tags: %d %d' % (x, y))
    for k, i in (('x', x), ('y', y)): e, r = c.req(GET, bytes([1]) + (n + k).encode() + b'\\0'); check(e == 0 and struct.unpack('i', r[:4])[0] == i, 'lookup ' + k)
''', 'two tags with names of the maximum length that differ only in the last character', 'both names lead to the same tag')
plant('c14-mask-id', 'C14', [('src/server/virtualtag.c', '''special_tag_mask_write(int fd, tag_index index, int offset, void *data, void *mask, int size) {
    dax_module *mod;

    /* If the tag is the module tag of the calling module then it can
       be written.  Otherwise it is read only */
    if(_db[index].type == _module_tag_type) {
        /* Anybody can write to the command bits */
        if(offset == MOD_STAT_COMMAND_OFFSET && size == 1) {''', '''special_tag_mask_write(int fd, tag_index index, int offset, void *data, void *mask, int size) {
    dax_module *mod;

    /* If the tag is the module tag of the calling module then it can
       be written.  Otherwise it is read only */
    if(_db[index].type == _module_tag_type) {
        /* Anybody can write to the command bits */
        if(offset >= MOD_STAT_COMMAND_OFFSET - 1 && size == 1) {''')], '''
def demo(s):
    a = Conn(s, 'alpha'); b = Conn(s, 'beta'); e, r = a.req(GET, bytes([1]) + b'_malpha\\0'); check(e == 0, 'module tag'); i = struct.unpack('i', r[:4])[0]
    d = a.read(i, 0, 78); check(len(d) == 78, 'read'); check(b.write(i, 76, b'Z') != 0, 'a write of the status is refused')
    check(b.mask(i, 76, b'Z', b'\\xff') != 0, 'a masked write of the status is refused'); check(a.read(i, 0, 78) == d, 'nothing has changed')
''', 'a masked write of the last byte of the status of another module', 'a module can change the status text of another module')
plant('c17-small-disc', 'C17', [('src/modules/modbus/modbus.c', '''    case 2: /* Read Discrete Inputs */
        if(port->nodes[nodeid]->disc_size) return 0;''', '''    case 2: /* Read Discrete Inputs */
        if(port->nodes[nodeid]->disc_size / 8) return 0;''')], '''
def demo(s):
    z = socket.socket(); z.bind(('127.0.0.1', 0)); port = z.getsockname()[1]; z.close()
    with open(s.dir + '/mb.conf', 'w') as f: f.write("""p = {name="P", enable=true, ipaddress="127.0.0.1", socket="TCP", bindport=%d, type="SERVER", protocol="TCP"}
portid = add_port(p)
add_register(portid, 5, "regs", 10, HOLDING)
add_register(portid, 5, "disc", 5, DISCRETE)
""" % port)
    m = subprocess.Popen(['build/src/modules/modbus/daxmodbus', '-C', s.dir + '/mb.conf', '-U', s.sock], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for _ in range(100):
            try: c = socket.create_connection(('127.0.0.1', port), 5); break
            except OSError: time.sleep(0.1)
        else: check(False, 'no connection to the Modbus server')
        c.settimeout(10); c.sendall(bytes([0, 1, 0, 0, 0, 6, 5, 2, 0, 0, 0, 5])); r = b''
        while len(r) < 9: 
            x = c.recv(100)
            if not x: break
            r += x
        ok = r[7] == 2
    finally: m.kill(); m.wait()
    check(ok, 'the discrete inputs are answered: %r' % (r,))
''', 'a node with fewer than eight discrete inputs', 'function 2 is refused with exception 1 although the node has discrete inputs')
plant('c19-late', 'C19', [('src/master/process.c', '                    restart = this->restartdelay - interval;', '                    restart = this->restartdelay;')], '''
import tempfile
def demo(s):
    d = s.dir
    with open(d + '/a.sh', 'w') as f: f.write('#!/bin/sh\\ndate +%s.%N >> ' + d + '/a.log\\n')
    os.chmod(d + '/a.sh', 0o755)
    with open(d + '/o.conf', 'w') as f: f.write('add_process({name="a", path="%s/a.sh", restart=true})\\nadd_process({name="b", path="/bin/sleep", args="1.0", restart=false})\\nadd_process({name="c", path="/bin/sleep", args="1.2", restart=false})\\nadd_process({name="e", path="/bin/sleep", args="1.4", restart=false})\\n' % d)
    m = subprocess.Popen(['build/src/master/opendax', '-C', d + '/o.conf', '-p', d + '/pid'], cwd=os.getcwd(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    time.sleep(5); m.kill(); m.wait()
    try: os.killpg(m.pid, 9)
    except OSError: pass
    t = [float(x) for x in open(d + '/a.log')]; print([round(x - t[0], 2) for x in t]); check(len(t) >= 6 and t[5] - t[4] < 1.2, 'the process is restarted 0.8 s after its fifth death')
''', 'a process that waits for its restart while something else, for example the death of another process, wakes the master up', 'the restart happens later than its delay says')
plant('c07-owned-retake', 'C07', [('src/server/module.c', '''            if(is_tag_owned(fd, n)) {
                tag_del(n);''', '''            if(is_tag_owned(fd, n) && n < tag_count - 1) {
                tag_del(n);''')], '''
def demo(s):
    a = Conn(s, 'alpha'); b = Conn(s, 'beta'); i = a.add('mine', 'INT', 1, 0x20); j = a.add('mine2', 'INT', 1, 0x20); check(i >= 0 and j >= 0, 'add')
    a.close(); time.sleep(0.5)
    for n in (b'mine', b'mine2'): check(b.req(GET, bytes([1]) + n + b'\\0')[0] != 0, 'the tags of the dead module are gone: %r' % n)
''', 'a module that leaves while the tag that was created last in the whole server belongs to it', 'this tag stays')
# ---- third round
plant('c15-maxfd-gap', 'C15', [('src/server/message.c', '''            if(FD_ISSET(n, &_fdset)) {
                tmpfd = n;
            }
        }
        _maxfd = tmpfd;''', '''            if(FD_ISSET(n, &_fdset)) {
                tmpfd = n;
            } else if(n > tmpfd + 8) {
                break;
            }
        }
        _maxfd = tmpfd;''')], '''
def demo(s):
    cs = [Conn(s, 'c%d' % k) for k in range(20)]; last = cs[18]; i = last.add('T', 'INT', 1)
    for c in cs[4:17]: c.close()
    time.sleep(0.5); check(last.write(i, 0, b'\\1\\0') == 0, 'write'); cs[19].close(); time.sleep(0.5)
    try: ok = last.write(i, 0, b'\\2\\0') == 0
    except Lost: ok = False
    check(ok, 'the module is still served after others have left')
''', 'a row of more than eight unused descriptors between two connections and the departure of the connection with the largest descriptor', 'the server does not listen to the connections behind the gap any more')
PROXY = '''
import threading
class Proxy:
    # hands the bytes over; answers to the command 'cmd' are passed to f, which tells how long to hold them
    def __init__(self, srv, f):
        self.path = srv.dir + '/proxy'; self.up = srv.sock; self.f = f; self.n = {}
        l = socket.socket(socket.AF_UNIX); l.bind(self.path); l.listen(5); threading.Thread(target=self.loop, args=(l,), daemon=True).start()
    def loop(self, l):
        while True:
            a, _ = l.accept(); b = socket.socket(socket.AF_UNIX); b.connect(self.up)
            threading.Thread(target=self.raw, args=(a, b), daemon=True).start(); threading.Thread(target=self.ans, args=(b, a), daemon=True).start()
    def raw(self, a, b):
        while True:
            x = a.recv(65536)
            if not x: b.close(); return
            b.sendall(x)
    def ans(self, a, b):
        q = b''
        while True:
            try: x = a.recv(65536)
            except OSError: x = b''
            if not x: return
            q += x
            while len(q) >= 8:
                n, c = struct.unpack('>II', q[:8])
                if len(q) < n + 8: break
                k = c & 0xff; self.n[k] = self.n.get(k, 0) + 1
                if not c & 0x80000000: time.sleep(self.f(k, self.n[k]))
                b.sendall(q[:n + 8]); q = q[n + 8:]
class Via:
    def __init__(self, srv, path): self.repo = srv.repo; self.sock = path
'''
plant('c20-early-unlock', 'C20', [('src/lib/libmsg.c', '''    result = _message_send(ds, MSG_EVNT_OPT, buff, size);
    if(result) {
        pthread_mutex_unlock(&ds->lock);
        return result;
    } else {
        size = sizeof(result);
        test = _message_recv(ds, MSG_EVNT_OPT, &result, &size, 1);
        pthread_mutex_unlock(&ds->lock);
        return test;
    }
    pthread_mutex_unlock(&ds->lock);
    return 0;''', '''    result = _message_send(ds, MSG_EVNT_OPT, buff, size);
    pthread_mutex_unlock(&ds->lock);
    if(result) return result;
    size = sizeof(result);
    test = _message_recv(ds, MSG_EVNT_OPT, &result, &size, 1);
    return test;''')], '''
import threading
def demo(s):
    l = Lib(s); h = l.add('T', 'INT', 4); g = l.add('U', 'DINT', 1); e = l.event(h, 2, lambda: None); check(isinstance(e, ID), 'event'); bad = []; end = time.time() + 5
    l.write(g, b'abcd')
    def opt():
        while time.time() < end and not bad:
            r = l.l.dax_event_options(l.ds, e, 1)
            if r: bad.append('options: %d' % r)
    def read():
        while time.time() < end and not bad:
            r = l.read(g)
            if r != b'abcd': bad.append('read: %r' % (r,))
    ts = [threading.Thread(target=f) for f in (opt, read, opt, read)]
    for t in ts: t.start()
    for t in ts: t.join()
    check(not bad, 'every thread gets its own result: %r' % bad)
''', 'a thread that sets the options of an event while other threads make calls with the same connection', 'a thread gets the answer of another one')
plant('c05-ulong', 'C05', [('src/server/events.c', '''            if(u1.dax_ulint < u2.dax_ulint) return -1;
            else if(u1.dax_ulint > u2.dax_ulint) return 1;''', '''            if(u1.dax_lint < u2.dax_lint) return -1;
            else if(u1.dax_lint > u2.dax_lint) return 1;''')], '''
def demo(s):
    c = Conn(s); i = c.add('T', 'ULINT', 2); q = lambda v: struct.pack('Q', v)
    check(c.event(i, 0, 0, 2, 16, 'ULINT', 7, q(1000)) >= 0, 'event'); c.write(i, 8, q(1001)); check(len(c.drain()) == 1, 'greater')
    c.write(i, 0, q(1 << 63)); check(len(c.drain()) == 1, 'a very large value is greater, too')
''', 'an ordering event on an unsigned 64 bit tag with a value beyond the signed range', 'large values are taken for negative ones')
plant('c17-wrap', 'C17', [('src/modules/modbus/modbus.c', '''            if((index + count) > port->nodes[node]->coil_size) {
                return _create_exception(buff, ME_BAD_ADDRESS);''', '''            if((uint16_t)(index + count) > port->nodes[node]->coil_size) {
                return _create_exception(buff, ME_BAD_ADDRESS);''')], '''
def demo(s):
    z = socket.socket(); z.bind(('127.0.0.1', 0)); port = z.getsockname()[1]; z.close()
    with open(s.dir + '/mb.conf', 'w') as f: f.write("""p = {name="P", enable=true, ipaddress="127.0.0.1", socket="TCP", bindport=%d, type="SERVER", protocol="TCP"}
portid = add_port(p)
add_register(portid, 5, "coil", 100, COIL)
""" % port)
    m = subprocess.Popen(['build/src/modules/modbus/daxmodbus', '-C', s.dir + '/mb.conf', '-U', s.sock], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for _ in range(100):
            try: c = socket.create_connection(('127.0.0.1', port), 5); break
            except OSError: time.sleep(0.1)
        else: check(False, 'no connection to the Modbus server')
        def ask(q, n):
            c.settimeout(10); c.sendall(q); r = b''
            while len(r) < n:
                x = c.recv(100)
                if not x: break
                r += x
            return r
        a = ask(bytes([0, 1, 0, 0, 0, 8, 5, 15, 0, 98, 0, 2, 1, 3]), 12); b = ask(bytes([0, 2, 0, 0, 0, 9, 5, 15, 0xff, 0xf8, 0, 16, 2, 255, 255]), 9)
    finally: m.kill(); m.wait()
    check(len(a) == 12 and a[7] == 15, 'the last coils are written: %r' % (a,)); check(len(b) >= 9 and b[7] == 0x8f and b[8] == 2, 'coils beyond the end are a bad address: %r' % (b,))
''', 'a write of multiple coils whose start address is so large that the end of the range wraps around', 'the request is not refused as a bad address')
MBC = '''
import threading
class Dev: # a Modbus TCP device: register n holds n, counts its requests
    def __init__(self, delay=0):
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.l.bind(('127.0.0.1', 0)); self.l.listen(8); self.port = self.l.getsockname()[1]; self.delay = delay; self.log = []; threading.Thread(target=self.run, daemon=True).start()
    def run(self):
        while True: threading.Thread(target=self.serve, args=(self.l.accept()[0],), daemon=True).start()
    def serve(self, c):
        b = b''
        while True:
            x = c.recv(1000)
            if not x: return
            b += x
            while len(b) >= 6 and len(b) >= 6 + struct.unpack('>H', b[4:6])[0]:
                n = 6 + struct.unpack('>H', b[4:6])[0]; f = b[:n]; b = b[n:]; fc = f[7]; reg, cnt = struct.unpack('>HH', f[8:12]); self.log.append((fc, reg)); time.sleep(self.delay)
                if fc in (3, 4): p = bytes([cnt * 2]) + b''.join(struct.pack('>H', (reg + i) & 65535) for i in range(cnt))
                elif fc in (1, 2): p = bytes([(cnt + 7) // 8]) + bytes((cnt + 7) // 8)
                else: p = f[8:12]
                c.sendall(f[:4] + struct.pack('>H', len(p) + 2) + f[6:8] + p)
class Mod:
    def __init__(self, s, port, cmds):
        with open(s.dir + '/mb.conf', 'w') as f:
            f.write('p = {name="p", enable=true, type="CLIENT", protocol="TCP", %s}\\nid = add_port(p)\\n' % port)
            for c in cmds: f.write('add_command(id, {node=1, ipaddress="127.0.0.1", %s})\\n' % c)
        self.p = subprocess.Popen(['build/src/modules/modbus/daxmodbus', '-C', s.dir + '/mb.conf', '-U', s.sock], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def __enter__(self): return self
    def __exit__(self, *a): self.p.kill(); self.p.wait()
def find(c, name):
    for _ in range(100):
        e, r = c.req(GET, b'\\x01' + name.encode() + b'\\0')
        if e == 0: return struct.unpack('i', r[:4])[0]
        time.sleep(0.05)
    check(False, 'no tag ' + name)
def until(f, t=8):
    end = time.time() + t
    while time.time() < end:
        if f(): return True
        time.sleep(0.02)
    return False
def command(c, idx, port, fc, reg, n, data=b''): # the port's command tag; returns the response
    c.write(idx, 1, struct.pack('<hBBBBHBBHH', 0, 127, 0, 0, 1, port, 1, fc, reg, n) + data); c.write(idx, 0, b'\\x01')
    check(until(lambda: not c.read(idx, 0, 1)[0] & 1), 'the command is done'); return struct.unpack('<h', c.read(idx, 1, 2))[0]
'''
plant('c18-enable-byte', 'C18', [('src/modules/modbus/modmain.c', 'if(bits[n/8] & (0x01 << n%8)) {', 'if(bits[n/8] & (0x01 << n)) {')], MBC + '''
def demo(s):
    c = Conn(s); d = Dev(); regs = c.add('regs', 'UINT', 100)
    with Mod(s, 'scanrate=50, timeout=500, retries=1', ['mode="CONTINUOUS", enable=true, fcode=3, register=%d, length=1, port=%d, tagname="regs[%d]", tagcount=1' % (100 + i, d.port, i) for i in range(10)]):
        en = find(c, 'p_cmd_en'); check(until(lambda: (3, 109) in d.log), 'all commands are sent'); time.sleep(0.5)
        c.write(en, 0, b'\\xfe\\x03'); time.sleep(0.5); d.log = []; time.sleep(1)
        check((3, 100) not in d.log, 'the disabled command is not sent'); check((3, 108) in d.log, 'an enabled command is still sent')
''', 'a port with more than eight commands, one of which is switched on or off while the module runs', 'the ninth and later commands stop although they are enabled')
plant('c18-early-done', 'C18', [('src/modules/modbus/modmain.c', '''    mb_send_command(event->port, event->cmd);
    dax_write_tag(_ds, event->h, &bit);''', '''    dax_write_tag(_ds, event->h, &bit);
    mb_send_command(event->port, event->cmd);''')], MBC + '''
def demo(s):
    c = Conn(s); d = Dev(0.5); regs = c.add('regs', 'UINT', 4); tr = c.add('tr', 'BOOL', 1)
    with Mod(s, 'scanrate=50, timeout=2000, retries=1', ['mode="TRIGGER", enable=true, fcode=3, register=7, length=2, port=%d, tagname="regs", tagcount=2, trigger="tr"' % d.port]):
        find(c, 'p_cmd'); time.sleep(3); c.write(tr, 0, b'\\x01'); check(until(lambda: c.read(tr, 0, 1) == b'\\0'), 'the trigger is reset')
        check(c.read(regs, 0, 4) == struct.pack('<HH', 7, 8), 'the data is there when the trigger is reset: %r' % c.read(regs, 0, 4))
''', 'somebody who looks at the trigger while the device has not answered yet', 'the trigger says that the command is done before its data is there')
plant('c18-async-size', 'C18', [('src/modules/modbus/mbcmds.c', '''    newdata = realloc(cmd->data, newsize);
    if(newdata == NULL) {
        return MB_ERR_ALLOC;
    } else {''', '''    newdata = cmd->data;
    if(newsize > cmd->datasize) newdata = realloc(cmd->data, newsize);
    if(newdata == NULL) {
        return MB_ERR_ALLOC;
    } else if(newsize > cmd->datasize) {''')], MBC + '''
def demo(s):
    c = Conn(s); d = Dev()
    with Mod(s, 'scanrate=50, timeout=500, retries=1', []):
        k = find(c, 'p_cmd'); time.sleep(2); check(command(c, k, d.port, 3, 500, 6) == 0, 'first command'); check(c.read(k, 15, 12) == struct.pack('<6H', *range(500, 506)), 'first data')
        check(command(c, k, d.port, 3, 700, 2, b'\\x55' * 240) == 0, 'second command'); check(c.read(k, 15, 12) == struct.pack('<2H', 700, 701) + b'\\x55' * 8, 'only the registers that were read change: %r' % c.read(k, 15, 12))
''', 'an asynchronous command that needs less data than an earlier one of the same port', 'the module writes old data behind the data of the answer')
plant('c18-old-error', 'C18', [('src/modules/modbus/modbus.c', '''                mc->lasterror = 0;
                /* Send the data to the tag server */
                if(mb_is_read_cmd(mc)) {''', '''                /* Send the data to the tag server */
                if(mb_is_read_cmd(mc)) {
                    mc->lasterror = 0;''')], MBC + '''
def demo(s):
    c = Conn(s); d = Dev(); z = socket.socket(); z.bind(('127.0.0.1', 0)); dead = z.getsockname()[1]; z.close()
    with Mod(s, 'scanrate=50, timeout=500, retries=1', []):
        k = find(c, 'p_cmd'); time.sleep(2); check(command(c, k, dead, 6, 5, 1, b'\\x01\\x02') != 0, 'there is no such device'); check(command(c, k, d.port, 6, 5, 1, b'\\x01\\x02') == 0, 'the write that the device answered is done without an error'); check((6, 5) in d.log, 'sent')
''', 'an asynchronous write after a command of the same port that failed', 'the successful write is reported with the old error')
