// C18: the Modbus TCP client: its commands, misbehaving devices, the tag server and a module that works with the same tags
#include "api.h"
#include "runout.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
static const char *REALC = "Modbus module (all of src/modules/modbus) with its Lua configuration, tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, threads, locks, clocks, signals and disk are simulated; Modbus devices and the other module are scripted";
extern "C" { int sim_bind(int, const struct sockaddr *, socklen_t); int sim_listen(int, int); int sim_accept(int, struct sockaddr *, socklen_t *); }
namespace {
const usec MS = 1000, S = 1000000;
enum { CONT = 1, CHANGE = 4, WRITE = 8, TRIG = 16 };
typedef std::vector<bool> Bits;
struct CS;
struct Cmd {
    int k, port, dev, unit, fc, addr, len, mode, interval = 0; bool enable = true, async = false, valid = true; std::string tag, trig; uint32_t type = 0; int total = 0, off = 0, tcount = 0; int idx = -1, tidx = -1, start = 0; bool late = false;
    uint64_t events = 0, snaps = 0, sends = 0, since = 0, answers = 0, olds = 0; bool have = false; Bits snap; CS *lastc = nullptr; int lasttid = -1; int outcome = -1; uint64_t trigsends = 0; bool trigclean = false; Bits onDev; bool written = false; uint64_t salt = 0;
    int nbits() const { return fc == 1 || fc == 2 || fc == 15 ? len : fc == 5 ? 1 : fc == 6 ? 16 : len * 16; }
    bool rd() const { return fc <= 4; }
    int tbits() const { return async ? 1920 : tcount * tb(); } int tb() const { return type == DAX_BOOL ? 1 : type == DAX_BYTE || type == DAX_SINT ? 8 : type == DAX_DINT || type == DAX_UDINT ? 32 : 16; }
};
struct Port { int scanrate, timeout, retries, delay; bool persist, enable; usec last = -1; bool progress = true; int eidx = -1, cidx = -1; std::vector<Cmd *> cmds; Cmd *as = nullptr; bool asbusy = false; };
struct CS { Conn *c; int dev; int port = -1; Bytes out; int tid = -1; Cmd *cmd = nullptr; bool busy = false, old = false; std::map<int, Bits> good; std::map<int, int> code; }; // good: transaction -> the data of a valid answer that was sent
struct Dev { int id; std::string ip; int port; Proc *p = nullptr; bool up = false; std::string key() const { return (ip.compare(0, 4, "127.") ? "tcp:" + ip + ":" : "tcp:") + std::to_string(port); } };
std::vector<Cmd *> cmds; std::vector<Port> ports; std::vector<Dev *> devs; std::map<Conn *, CS *> cs; Proc *mp; Wire *mw; bool faults, over, g_many; std::map<int, Cmd *> bytag, bytrig; double pbad;
const char *nm(Cmd *c) { static char b[8][96]; static int i; i = (i + 1) & 7; snprintf(b[i], 96, "%s %d of port %d (device %d unit %d function %d register %d length %d)", c->async ? "the asynchronous command" : "command", c->k, c->port, c->dev, c->unit, c->fc, c->addr, c->len); return b[i]; }
uint32_t R(uint32_t n) { return choose(ST_CFG, n); }
bool gb(const Bytes &b, uint32_t n) { return n / 8 < b.size() && b[n / 8] >> (n % 8) & 1; }
bool devbit(Cmd *c, int i, uint64_t salt) { uint64_t z = (c->addr * 7919ull + i / 16 + 1) * 0x9e3779b97f4a7c15ull ^ salt * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; return z >> (i % 16) & 1; }
void put16(Bytes &b, int v) { b.push_back(v >> 8); b.push_back(v); }
std::string bs(const Bits &b) { std::string s; for(size_t i = 0; i < b.size() && i < 64; i++) s += b[i] ? '1' : '0'; return s; }
// register data in a message: words are big endian, bits start at the lowest bit of the first byte
Bytes pack(const Bits &b, bool words) { Bytes r((b.size() + 7) / 8); for(size_t i = 0; i < b.size(); i++) if(b[i]) { size_t y = words ? i / 16 * 2 + (i % 16 < 8) : i / 8; r[y] |= 1 << i % 8; } return r; }
Bits unpack(const uint8_t *d, int n, bool words) { Bits b(n); for(int i = 0; i < n; i++) { int y = words ? i / 16 * 2 + (i % 16 < 8) : i / 8; b[i] = d[y] >> (i % 8) & 1; } return b; }
bool isword(int fc) { return fc == 3 || fc == 4 || fc == 16 || fc == 6; }
// a complete request as the module wrote it
void request(CS *x, const Bytes &f) {
    int tid = f[0] << 8 | f[1], len = f.size() - 6, unit = f[6], fc = f[7], addr = f[8] << 8 | f[9]; Cmd *c = nullptr;
    for(auto p : cmds) if(p->dev == x->dev && p->unit == unit && p->fc == fc && p->addr == addr) c = p;
    for(auto &p : ports) if(p.as && p.asbusy && !c && p.as->dev == x->dev && p.as->unit == unit && p.as->fc == fc && p.as->addr == addr) c = p.as;
    if(f[2] || f[3]) violation("[request] protocol %d in the request %s", f[2] << 8 | f[3], hex(f).c_str());
    if(!c) violation("[request] device %d was sent a request that no command says: %s", x->dev, hex(f).c_str());
    if(!c->valid) violation("[request] %s is not valid and was sent: %s", nm(c), hex(f).c_str());
    if(x->port >= 0 && x->port != c->port) violation("[request] a connection of port %d carries %s", x->port, nm(c));
    x->port = c->port; Port &p = ports[c->port];
    if(x->tid == tid) violation("[tid] %s was sent with the transaction of the request before it (%d)", nm(c), tid);
    if(!p.progress && p.last >= 0 && now - p.last < (p.timeout - 2) * MS) violation("[too-early] %s was sent %lld ms after the request before it, which was not answered (timeout %d ms)", nm(c), (long long)(now - p.last) / MS, p.timeout);
    p.last = now; p.progress = false;
    if(c->rd()) { if(len != 6 || (f[10] << 8 | f[11]) != c->len) violation("[request] %s was sent as %s", nm(c), hex(f).c_str()); }
    else {
        int n = c->nbits(); Bits d; bool ok;
        if(c->fc == 5) { ok = len == 6 && !f[11] && (f[10] == 0 || f[10] == 255); d = {f[10] == 255}; } else if(c->fc == 6) { ok = len == 6; if(ok) d = unpack(&f[10], 16, true); }
        else { int by = (n + 7) / 8; ok = len == 7 + by && (f[10] << 8 | f[11]) == c->len && f[12] == by; if(ok) d = unpack(&f[13], n, c->fc == 16); }
        if(!ok) violation("[request] %s was sent as %s", nm(c), hex(f).c_str());
        if(!c->have) violation("[unread] %s was sent and its tag was never read", nm(c));
        int e = std::min(n, c->tbits()); if(c->async && c->fc == 5) { bool lo = false, hi = false; for(int i = 0; i < 16; i++) (i < 8 ? lo : hi) |= c->snap[i]; if(lo ? !d[0] : !hi && d[0]) violation("[data] %s was sent with the data %s, the tag held %s", nm(c), bs(d).c_str(), bs(c->snap).c_str()); } else for(int i = 0; i < n; i++) if(d[i] != (i < e && c->snap[i])) violation("[data] %s was sent with the data %s, the tag held %s", nm(c), bs(d).c_str(), bs(c->snap).c_str());
        if(++c->since > (uint64_t)p.retries + 1) violation("[unread] %s was sent %llu times with the same data, retries are set to %d", nm(c), (unsigned long long)c->since, p.retries);
        count("Modbus write requests checked");
    }
    c->sends++; if(x->old) c->olds++; count("Modbus requests checked"); nontrivial();
    if(!c->async && !(c->mode & CONT) && c->sends > c->events * (p.retries + 1)) violation("[unasked] %s was sent %llu times for %llu events, retries are set to %d", nm(c), (unsigned long long)c->sends, (unsigned long long)c->events, p.retries);
    x->tid = tid; x->cmd = c; c->lastc = x; c->lasttid = tid; x->good.erase(tid); x->code.erase(tid); c->outcome = -1;
}
void sent_bytes(CS *x, const uint8_t *b, size_t n) {
    x->out.insert(x->out.end(), b, b + n);
    while(x->out.size() >= 6) { size_t l = x->out[4] << 8 | x->out[5]; if(l < 6 || l > 254) violation("[request] device %d was sent a request that says it has %zu bytes: %s", x->dev, l, hex(x->out).c_str()); if(x->out.size() < 6 + l) return; Bytes f(x->out.begin(), x->out.begin() + 6 + l); x->out.erase(x->out.begin(), x->out.begin() + 6 + l); request(x, f); }
}
CS *conn_state(Conn *c) { auto it = cs.find(c); if(it != cs.end()) return it->second; for(auto d : devs) if(c->key == d->key()) { CS *x = new CS; x->c = c; x->dev = d->id; cs[c] = x; return x; } return nullptr; }
Bits window(Cmd *c) { const Bytes &d = M.db[c->idx].data; Bits b(c->tbits()); for(size_t i = 0; i < b.size(); i++) b[i] = gb(d, c->start + i); return b; }
// the module wrote to a tag that a command reads into
void tag_write(Cmd *c, const Frame &rq) {
    uint32_t off; memcpy(&off, &rq.d[4], 4); bool masked = rq.cmd == C_MWRITE; uint32_t n = masked ? (rq.d.size() - 8) / 2 : rq.d.size() - 8; std::vector<std::pair<int, bool>> w;
    for(uint32_t i = 0; i < n * 8; i++) if(!masked || rq.d[8 + n + i / 8] >> i % 8 & 1) w.push_back({(int)(off * 8 + i), rq.d[8 + i / 8] >> i % 8 & 1});
    if(w.empty()) return; int e = std::min(c->nbits(), c->tbits());
    if(!c->rd()) violation("[bad-data] the module wrote to the tag of %s", nm(c));
    if(!c->lastc || !c->lastc->good.count(c->lasttid)) violation("[bad-data] the module wrote to the tag of %s, and its last request has no valid answer", nm(c));
    Bits &g = c->lastc->good[c->lasttid];
    for(size_t i = 0; i < w.size(); i++) { int at = w[i].first - c->start; if(c->async && at >= e && at == (int)i && at < (e + 7) / 8 * 8) continue; if(at < 0 || at >= e) violation("[bad-data] the module wrote to bit %d of the tag of %s, which is not one of its %d", at, nm(c), e); if(at != (int)i || g[at] != w[i].second) violation("[bad-data] the module wrote bit %d of the tag of %s wrong: the answer says %s", at, nm(c), bs(g).c_str()); }
    if((int)w.size() < e / c->tb() * c->tb()) violation("[bad-data] the module wrote %zu of %d bits of the tag of %s", w.size(), e, nm(c));
    c->answers++; count("answers written to tags");
}
void attach() {
    auto w0 = on_write; on_write = [w0](Conn *c, int side, const uint8_t *b, size_t n) { w0(c, side, b, n); if(side == 0 && c->owner[0] == mp) if(CS *x = conn_state(c)) sent_bytes(x, b, n); };
    on_read = [](Conn *c, int side, const uint8_t *, size_t) { if(side == 0 && c->owner[0] == mp) if(CS *x = conn_state(c)) if(x->port >= 0) ports[x->port].progress = true; };
    auto c0 = on_close; on_close = [c0](Conn *c, int side) { c0(c, side); auto it = cs.find(c); if(it != cs.end() && it->second->port >= 0) ports[it->second->port].progress = true; };
    auto e0 = on_event_frame; on_event_frame = [e0](Wire *w, const Ev &e) { e0(w, e); if(!mw && mp) mw = wire_of_proc(mp); if(w != mw) return; if(bytrig.count(e.idx)) { Cmd *k = bytrig[e.idx]; k->events++; k->trigsends = k->sends; k->trigclean = !faults; } else if(bytag.count(e.idx)) bytag[e.idx]->events++; };
    on_answer = [](Wire *w, const Frame &rq, const Frame &rsp) {
        if(!mw && mp) mw = wire_of_proc(mp);
        if(w != mw || over || (rsp.cmd & RERR) || rq.d.size() < 8) return; int32_t idx; memcpy(&idx, &rq.d[0], 4); if(!bytag.count(idx) && idx >= 0 && (size_t)idx < M.db.size() && M.db[idx].exists) for(auto k : cmds) if(k->idx < 0 && k->tag == M.db[idx].name) { k->start = k->off * k->tb(); bytag[idx] = k; k->idx = idx; } Cmd *c = bytag.count(idx) ? bytag[idx] : nullptr; uint32_t off; memcpy(&off, &rq.d[4], 4);
        if(rq.cmd == C_READ && c && !c->rd() && (!c->async || off >= 15)) { c->snap = window(c); c->have = true; c->snaps++; c->since = 0; if(!c->async && !(c->mode & CONT) && c->snaps > c->events) violation("[unasked] %s was carried out %llu times for %llu events", nm(c), (unsigned long long)c->snaps, (unsigned long long)c->events); }
        if(rq.cmd == C_WRITE || rq.cmd == C_MWRITE) {
            if(bytrig.count(idx)) { if(rq.d.back() & (rq.cmd == C_MWRITE ? 0 : 1)) violation("[trigger] the module set a trigger"); Cmd *k = bytrig[idx]; if(!faults && k->trigclean && k->enable && k->sends == k->trigsends) violation("[trigger] the trigger of %s is reset and the command was not sent", nm(k)); return; }
            if(!c) return;
            if(c->async && off < 15) {
                if(rq.cmd != C_WRITE || off || rq.d.size() != 8 + 15 || rq.d[8] & 1) violation("[async] the module wrote %s to the command tag of port %d", hex(rq.d).c_str(), c->port);
                int16_t rsp; memcpy(&rsp, &rq.d[9], 2); bool good = c->lastc && c->lastc->good.count(c->lasttid), exc = c->lastc && c->lastc->code.count(c->lasttid);
                if(rsp == 0 && !(c->valid && good)) violation("[false-success] %s is reported as done without an error, and its request has no valid answer", nm(c));
                c->outcome = rsp; if(!faults && c->valid && c->sends) { if(good && rsp) violation("[false-error] %s was answered and is reported as error %d", nm(c), rsp); if(exc && rsp != (0x80 | c->lastc->code[c->lasttid])) violation("[exception] %s was answered with exception %d and is reported as %d", nm(c), c->lastc->code[c->lasttid], rsp); }
                count("asynchronous commands"); return; }
            tag_write(c, rq); }
    };
}
// ---- devices
void dwrite(int fd, const uint8_t *b, size_t n) { while(n) { ssize_t r = sim_write(fd, b, n); if(r < 0) { if(errno == EINTR) continue; return; } b += r; n -= r; } }
void serve(Dev *d, int fd, CS *x, int st) {
    Bytes in; auto Q = [st](uint32_t n) { return choose(st, n); };
    for(;;) {
        uint8_t b[300]; ssize_t r = sim_read(fd, b, sizeof b); if(r < 0 && errno == EINTR) continue; if(r <= 0) break; in.insert(in.end(), b, b + r);
        while(in.size() >= 6 && in.size() >= 6u + (in[4] << 8 | in[5])) {
            Bytes f(in.begin(), in.begin() + 6 + (in[4] << 8 | in[5])); in.erase(in.begin(), in.begin() + f.size());
            int tid = f[0] << 8 | f[1], unit = f[6], fc = f[7], addr = f[8] << 8 | f[9]; Cmd *c = nullptr; for(auto p : cmds) if(p->dev == d->id && p->unit == unit && p->fc == fc && p->addr == addr) c = p; if(!c && x->port >= 0 && ports[x->port].as) c = ports[x->port].as; if(!c || c->fc != fc || c->addr != addr) continue;
            Bytes a; Bits g; if(faults) c->salt = choose(st, 1 << 20);
            Bytes pdu; pdu.push_back(unit); pdu.push_back(fc);
            if(c->rd()) { g.resize(c->nbits()); for(size_t i = 0; i < g.size(); i++) g[i] = devbit(c, i, c->salt); Bytes p = pack(g, isword(fc)); if(p.size() > 250) { continue; } pdu.push_back(p.size()); pdu.insert(pdu.end(), p.begin(), p.end()); }
            else { put16(pdu, addr); pdu.push_back(f[10]); pdu.push_back(f[11]); }
            auto frame = [&](const Bytes &p, int t) { Bytes o; put16(o, t); put16(o, 0); put16(o, p.size()); o.insert(o.end(), p.begin(), p.end()); return o; };
            auto note = [&](bool good, int code) { if(good) x->good[tid] = g; if(code >= 0) x->code[tid] = code; };
            if(!c->rd()) { c->onDev = c->fc == 5 ? Bits{f[10] == 255} : c->fc == 6 ? unpack(&f[10], 16, true) : unpack(&f[13], c->nbits(), c->fc == 16); c->written = true; }
            int how = faults && flip(st, pbad) ? 1 + Q(20) : 0; Port &po = ports[c->port]; usec to = po.timeout * MS;
            if(!faults && c->async && c->len % 5 == 3) how = 7; // keeps to answer some requests with an exception
            a = frame(pdu, tid); bool close = false; static const char *names[] = {"", "requests not answered", "late answers", "slow answers", "answers in pieces", "answers in slow pieces", "wrong transactions", "exceptions", "wrong units", "wrong functions", "answers with too little data", "answers with too much data", "garbage answers", "answers cut off by a close", "connections closed", "answers before a close", "repeated answers", "answers with bytes behind them", "wrong protocols", "wrong lengths", "connections reset"}; if(how) count(names[how]);
            auto good = [&] { note(true, -1); };
            switch(how) {
            case 0: good(); break;
            case 1: fired(F_STALL); a.clear(); break;
            case 2: case 3: { fired(F_DELAY); usec dl = how == 2 ? to + to / 10 + Q(to * 2) : Q(to * 8 / 10); good(); Bytes z = a; bool slow = how == 2 && Q(2); if(!slow) { thread(d->p, "late", [=] { sleep_us(dl); wait_until([x] { return !x->busy; }, -1, "busy"); auto it = cur->proc->fds.find(fd); if(it != cur->proc->fds.end() && it->second->conn == x->c) dwrite(fd, z.data(), z.size()); }); a.clear(); } else { sleep_us(dl); } break; }
            case 4: case 5: { fired(F_SEGMENT); good(); x->busy = true; size_t o = 0; usec left = how == 5 ? to * 8 / 10 : 0; while(o < a.size()) { size_t k = 1 + Q(Q(2) ? 3 : a.size()); k = std::min(k, a.size() - o); dwrite(fd, &a[o], k); o += k; if(o < a.size()) { usec z = left ? Q(left) : Q(3) ? Q(2000) : 0; if(left) left -= std::min(left, z); sleep_us(z); } } x->busy = false; a.clear(); break; }
            case 6: fired(F_GARBAGE); a = frame(pdu, Q(3) ? tid - 1 - Q(3) : Q(65536)); if((a[0] << 8 | a[1]) == tid) good(); break;
            case 7: { int code = 1 + Q(8); if(c->async) code = 1 + c->addr % 8; a = frame({(uint8_t)unit, (uint8_t)(fc | 0x80), (uint8_t)code}, tid); note(false, code); break; }
            case 8: fired(F_GARBAGE); a[6] = unit ^ (1 + Q(7)); break;
            case 9: fired(F_GARBAGE); { int o[] = {1, 2, 3, 4, 5, 6, 15, 16, 0, 77}; int z = o[Q(10)]; a[7] = z == fc ? fc + 20 : z; break; }
            case 10: case 11: fired(F_GARBAGE); if(!c->rd()) { a = frame(Bytes(pdu.begin(), pdu.begin() + 3 + Q(2)), tid); break; } { int n = pdu[2], z = how == 10 ? Q(n) : Q(3) ? n + 1 + Q(251 - n > 4 ? 251 - n : 4) : 255; if(z == n) z++; Bytes p(pdu.begin(), pdu.begin() + 2); p.push_back(z); for(int i = 0; i < z; i++) p.push_back(Q(256)); if(Q(3) == 2) p[2] = n; if(p[2] == n && (int)p.size() == 3 + n) p.push_back(0); if(p[2] == n && (int)p.size() > 3 + n) { g = unpack(&p[3], c->nbits(), isword(fc)); good(); } a = frame(p, tid); break; }
            case 12: fired(F_GARBAGE); { int n = 1 + Q(Q(3) ? 30 : 600); a.clear(); for(int i = 0; i < n; i++) a.push_back(Q(4) ? Q(256) : 0); break; }
            case 13: fired(F_CONNRESET); a.resize(1 + Q(a.size() - 1)); close = true; break;
            case 14: fired(F_CONNRESET); a.clear(); close = true; break;
            case 15: fired(F_CONNRESET); good(); close = true; break;
            case 16: good(); { Bytes z = a; int n = 1 + Q(3); while(n--) a.insert(a.end(), z.begin(), z.end()); } break;
            case 17: fired(F_GARBAGE); good(); { int n = 1 + Q(Q(2) ? 8 : 400); while(n--) a.push_back(Q(256)); } break;
            case 18: fired(F_GARBAGE); a[2 + Q(2)] = 1 + Q(255); break;
            case 19: fired(F_GARBAGE); { int l[] = {0, 1, 2, 3, 255, 256, 300, 65535, (int)pdu.size() + 1 + (int)Q(6), (int)Q(pdu.size())}; int z = l[Q(10)]; if(z == (int)pdu.size()) z++; if(z > (int)pdu.size()) good(); a[4] = z >> 8; a[5] = z; break; }
            case 20: fired(F_CONNRESET); if(x->port >= 0) ports[x->port].progress = true; conn_reset(x->c); a.clear(); close = true; break;
            }
            if(a.size()) dwrite(fd, a.data(), a.size());
            if(close) { sim_close(fd); return; }
        }
    }
    sim_close(fd);
}
void start_dev(Dev *d) {
    d->p = spawn("device" + std::to_string(d->id), [d] {
        cur->proc->noeintr = true; int s = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; inet_aton(d->ip.c_str(), &a.sin_addr); a.sin_port = htons(d->port); int n = 0;
        if(sim_bind(s, (struct sockaddr *)&a, sizeof a)) harness_error("bind"); sim_listen(s, 8);
        for(;;) { int fd = sim_accept(s, nullptr, nullptr); if(fd < 0) continue; Conn *c = cur->proc->fds.at(fd)->conn; CS *x = c ? conn_state(c) : nullptr; if(!x) harness_error("device connection"); n++;
            if(faults && flip(ST_ACTOR0 + 30 + d->id, pbad / 4)) { count("connections closed at once"); fired(F_CONNRESET); sim_close(fd); continue; }
            thread(d->p, "conn" + std::to_string(n), [=] { serve(d, fd, x, ST_ACTOR0 + 30 + d->id); }); } });
    d->up = true;
}
void stop_dev(Dev *d) { for(auto &k : cs) if(k.second->dev == d->id && k.second->port >= 0) ports[k.second->port].progress = true; kill_proc(d->p, true, 137, "device off"); d->up = false; count("devices switched off"); fired(F_CONNRESET); }
// ---- the other module
struct Hmi {
    Client *c; int st;
    uint32_t Q(uint32_t n) { return choose(st, n); }
    void add(Cmd *k, bool late = false) { // the tags of one command
        uint32_t ty = k->type; if(k->tag.size() && (k->idx < 0 || late)) { tag_handle h; if(api_add(c, k->tag, ty, k->total, 0, &h)) violation("[setup] tag add"); k->idx = h.index; k->start = k->off * k->tb(); bytag[k->idx] = k; if(k->type == DAX_BOOL && !k->rd()) { } }
        if(k->trig.size() && k->tidx < 0) { tag_handle h; if(api_add(c, k->trig, DAX_BOOL, 1, 0, &h)) violation("[setup] tag add"); k->tidx = h.index; bytrig[k->tidx] = k; } }
    void change(Cmd *k, bool part) { // other data for a command that writes
        int e = k->total * k->tb(), a = k->start, n = std::min(k->nbits(), k->tbits()); MTag &t = M.db[k->idx];
        if(k->type == DAX_BOOL) { int o = part ? Q(n) : 0, m = part ? 1 + Q(n - o) : n; Bytes d(boolbytes((a + o) % 8, m)); for(auto &x : d) x = Q(256); if(Q(2)) d[0] ^= 0; api_write(c, H(k->idx, (a + o) / 8, (a + o) % 8, m, d.size(), DAX_BOOL), d); }
        else { int ts = k->tb() / 8, cnt = k->tcount, o = part ? Q(cnt) : 0, m = part ? 1 + Q(cnt - o) : cnt; Bytes d(m * ts); for(auto &x : d) x = Q(256); api_write(c, H(k->idx, a / 8 + o * ts, 0, m, d.size(), t.type), d); }
        (void)e; count("write data changed"); }
    void trigger(Cmd *k) { api_write(c, H(k->tidx, 0, 0, 1, 1, DAX_BOOL), {1}); count("triggers"); }
    bool trig_done(Cmd *k) { return !(M.db[k->tidx].data[0] & 1); }
    void enable(int port, int n, bool on) { ports[port].cmds[n]->enable = on; api_write(c, H(ports[port].eidx, n / 8, n % 8, 1, 1, DAX_BOOL), {(uint8_t)on}); count("commands switched on or off"); }
    void async(int port) {
        Port &p = ports[port]; Cmd *k = p.as; Dev *d = devs[Q(devs.size())]; static const int fcs[] = {3, 16, 1, 15, 6, 5, 4, 2}; k->fc = fcs[Q(8)]; k->dev = d->id; k->unit = 1 + Q(247); k->addr = 20000 + Q(40000); k->valid = true;
        k->len = k->fc == 5 || k->fc == 6 ? Q(3) : isword(k->fc) ? 1 + Q(Q(3) ? 20 : 120) : 1 + Q(Q(3) ? 40 : 1920);
        if(Q(10) == 9) { k->valid = false; switch(Q(4)) { case 0: { int o[] = {0, 7, 17, 22, 99, 128, 255}; k->fc = o[Q(7)]; break; } case 1: { if(k->fc == 5 || k->fc == 6) k->fc = 3; k->len = isword(k->fc) ? (Q(2) ? 126 + Q(2000) : 0) : (Q(2) ? 2001 + Q(60000) : 0); break; } case 2: if(k->fc != 5 && k->fc != 6) { k->len = 65535; break; } default: { k->fc = 15 + Q(2); k->len = 3000 + Q(60000); } } }
        Bytes b(255); b[0] = 1; b[1] = b[2] = 0; int ip[4]; sscanf(d->ip.c_str(), "%d.%d.%d.%d", ip, ip + 1, ip + 2, ip + 3); for(int i = 0; i < 4; i++) b[3 + i] = ip[i]; auto p16 = [&](int o, int v) { b[o] = v; b[o + 1] = v >> 8; }; p16(7, d->port); b[9] = k->unit; b[10] = k->fc; p16(11, k->addr); p16(13, k->len); for(int i = 15; i < 255; i++) b[i] = Q(256);
        k->lastc = nullptr; k->lasttid = -1; k->have = false; k->sends = 0; k->outcome = -1; p.asbusy = true;
        if(Q(2)) api_write(c, H(p.cidx, 0, 0, 1, 255, M.db[p.cidx].type), b); else { Bytes z(b.begin() + 1, b.end()); api_rwrite(c, p.cidx, 1, z); api_write(c, H(p.cidx, 0, 0, 1, 1, DAX_BOOL), {1}); }
    }
    bool async_done(int port) { return !(M.db[ports[port].cidx].data[0] & 1); }
    void barrier(usec limit) { Cmd *b = cmds[0]; trigger(b); auto ok = [&] { if(!mp->alive) return true; if(!trig_done(b)) return false; for(size_t i = 0; i < ports.size(); i++) if(!async_done(i)) return false; for(auto k : cmds) if(k->tidx >= 0 && !trig_done(k)) return false; return true; };
        if(!wait_until(ok, limit, "events carried out")) { if(mp->stall_until > now) sleep_us(mp->stall_until - now); std::string w; for(auto k : cmds) if(k->tidx >= 0 && !trig_done(k)) { w = std::string("the trigger of ") + nm(k) + " is still set"; break; } for(size_t i = 0; i < ports.size(); i++) if(!async_done(i)) { w = std::string(nm(ports[i].as)) + " is not done"; break; } violation("[no-progress] after %lld s %s", (long long)limit / S, w.c_str()); }
        if(!mp->alive) violation("[exit] the Modbus module ended: %s", mp->death.c_str()); for(auto &p : ports) p.asbusy = false; }
    std::vector<Cmd *> burst(bool toggles) { // a few changes at a time, fewer than a client's queue of notifications holds
        std::vector<Cmd *> r; int n = 1 + Q(4); std::set<int> used;
        for(int i = 0; i < n; i++) {
            int w = Q(10); if(w == 0 && !toggles) w = 3;
            if(w == 0) { int p = Q(ports.size()); if(ports[p].eidx >= 0 && ports[p].cmds.size()) { int k = Q(ports[p].cmds.size()); if(ports[p].cmds[k] != cmds[0]) enable(p, k, Q(3)); } }
            else if(w < 3) { int p = Q(ports.size()); if(!ports[p].asbusy) async(p); }
            else { Cmd *k = cmds[Q(cmds.size())]; if(k == cmds[0] || k->idx < 0 || used.count(k->k + k->port * 100)) continue; if(k->mode & TRIG) { if(k->tidx < 0) continue; if(!k->rd()) { used.insert(k->k + k->port * 100); change(k, Q(2)); i += (k->mode & (WRITE | CHANGE)) ? 1 : 0; } else used.insert(k->k + k->port * 100); trigger(k); r.push_back(k); } else if(!k->rd()) { used.insert(k->k + k->port * 100); change(k, Q(2)); r.push_back(k); } }
            if(Q(3) == 2) sleep_us(Q(30000)); }
        return r; }
    void other() { for(int i = Q(3); i > 0; i--) { Cmd *k = cmds[Q(cmds.size())]; if(k->idx < 0) continue; if(!k->rd() && (k->mode & ~TRIG) == CONT) change(k, Q(2)); else api_rread(c, k->idx, 0, 1); } }
};
void mk_cmd(int port, bool barrier) {
    static const int fcs[] = {3, 16, 1, 15, 5, 6, 4, 2}; Cmd *c = new Cmd; c->k = ports[port].cmds.size(); c->port = port; c->dev = barrier ? 0 : R(devs.size()); c->unit = 1 + R(3); c->fc = fcs[R(8)]; c->addr = 100 * (cmds.size() + 1) + R(50);
    c->len = c->fc == 5 || c->fc == 6 ? R(3) : isword(c->fc) ? 1 + R(R(5) ? 20 : c->fc == 16 ? 120 : 125) : 1 + R(R(5) ? 40 : c->fc == 15 ? 1960 : 2000);
    c->mode = barrier ? TRIG : R(2) ? CONT : c->rd() ? TRIG : (const int[]){WRITE, CHANGE, TRIG, CONT | WRITE, CONT | CHANGE, WRITE | TRIG, CONT | TRIG, WRITE}[R(8)]; c->interval = c->mode & CONT ? R(4) : R(2); c->enable = barrier || R(8) > 0;
    std::string n = "t" + std::to_string(port) + "_" + std::to_string(c->k); c->tag = n; bool bit = !isword(c->fc); int nb = c->nbits();
    if(bit) { c->type = DAX_BOOL; c->tcount = nb; } else { static const uint32_t ty[] = {DAX_UINT, DAX_INT, DAX_WORD, DAX_UDINT, DAX_BYTE}; c->type = ty[R(5)]; c->tcount = std::max(1, nb / c->tb()); }
    if(c->fc != 5 && c->fc != 6) { int w = R(8); if(w == 6) c->tcount = std::max<int>(1, c->tcount - 1 - R(c->tcount)); else if(w == 7) c->tcount += 1 + R(c->tcount + 8); }
    c->off = R(4) == 3 ? R(20) : 0; c->total = c->off + c->tcount + (R(3) ? 0 : R(10));
    if(c->mode & TRIG) c->trig = n + "_trig"; c->late = R(5) == 4;
    ports[port].cmds.push_back(c); cmds.push_back(c);
}
void c18() {
    world_init(); model_attach(); swarm_net(); cfg.sockbuf = std::max<size_t>(cfg.sockbuf, 5000); cfg.delay_max = std::min(cfg.delay_max, 3); cfg.p_eintr = R(3) == 2 ? 0.02 : 0; cfg.step_budget = 60 * 1000 * 1000; cfg.edge_budget *= 10; cfg.time_budget_us = 100000 * S;
    cmds.clear(); ports.clear(); devs.clear(); cs.clear(); bytag.clear(); bytrig.clear(); mp = nullptr; mw = nullptr; faults = true; over = false; attach();
    static const double pb[] = {0.1, 0.3, 0.7, 0.02}; pbad = pb[R(4)];
    mark_root(spawn("ctl", [] {
        start_server(); g_many = false; bool many = g_many = R(8) == 5; int nd = many ? 16 + R(6) : 1 + R(3), np = many ? 1 : 1 + R(2); static const char *ips[] = {"127.0.0.1", "10.1.2.3", "192.168.200.7"};
        for(int i = 0; i < nd; i++) { Dev *d = new Dev; d->id = i; d->ip = ips[R(3)]; d->port = (R(3) ? 1502 : 502) + i; devs.push_back(d); }
        std::string lua; static const int scans[] = {100, 20, 250, 1000}, tos[] = {300, 100, 1000};
        for(int i = 0; i < np; i++) { Port p; p.scanrate = many ? 300 + R(3) * 250 : scans[R(4)]; p.timeout = tos[R(3)]; p.retries = 1 + R(3); p.delay = R(3) ? 0 : R(20); p.persist = R(2); p.enable = R(10) < 9; ports.push_back(p); }
        for(int i = 0; i < np; i++) { int n = many ? 9 + R(14) : 1 + R(6); for(int k = 0; k < n; k++) mk_cmd(i, i == 0 && k == 0); Port &p = ports[i]; std::string id = "id" + std::to_string(i);
            lua += "p={} p.name=\"port" + std::to_string(i) + "\" p.enable=" + (p.enable ? "true" : "false") + " p.type=\"CLIENT\" p.protocol=\"TCP\" p.scanrate=" + std::to_string(p.scanrate) + " p.timeout=" + std::to_string(p.timeout) + " p.retries=" + std::to_string(p.retries) + " p.delay=" + std::to_string(p.delay) + " p.persist=" + (p.persist ? "true" : "false") + " p.maxfailures=" + std::to_string(R(2) * 20) + " p.inhibit=10\n" + id + "=add_port(p)\n";
            for(auto c : p.cmds) { std::string m; if(c->mode & CONT) m += "CONTINUOUS "; if(c->mode & TRIG) m += "TRIGGER "; if(c->mode & CHANGE) m += "CHANGE "; if(c->mode & WRITE) m += "WRITE "; Dev *d = devs[c->dev];
                lua += "c={} c.mode=\"" + m + "\" c.enable=" + (c->enable ? "true" : "false") + " c.node=" + std::to_string(c->unit) + " c.fcode=" + std::to_string(c->fc) + " c.register=" + std::to_string(c->addr) + " c.length=" + std::to_string(c->len) + " c.interval=" + std::to_string(c->interval) + " c.ipaddress=\"" + d->ip + "\" c.port=" + std::to_string(d->port) + " c.tagname=\"" + c->tag + (c->off ? "[" + std::to_string(c->off) + "]" : "") + "\" c.tagcount=" + std::to_string(c->tcount) + (c->trig.size() ? " c.trigger=\"" + c->trig + "\"" : "") + " add_command(" + id + ",c)\n"; } }
        trace("configuration:\n%s", lua.c_str());
        for(auto d : devs) if(R(4)) start_dev(d); else count("devices that are off at first");
        bool *ready = new bool(false);
        Client *hc = run_client(0, "hmi", [=](Client *c) {
            Hmi h{c, c->stream}; for(auto k : cmds) if(!k->late) h.add(k); *ready = true;
            wait_until([] { return mp && (!mp->alive || mw); }, 60 * S, "module"); if(!mp || !mp->alive || !mw) violation("[start] the Modbus module did not start (%s)", mp ? mp->death.c_str() : "");
            if(!wait_until([=] { for(int i = 0; i < np; i++) if(M.find("port" + std::to_string(i) + "_cmd") < 0 || M.find("port" + std::to_string(i) + "_cmd_en") < 0) return false; return true; }, 20 * S, "port tags")) violation("[setup] the tags of the ports do not exist");
            for(int i = 0; i < np; i++) { Port &p = ports[i]; p.eidx = M.find("port" + std::to_string(i) + "_cmd_en"); p.cidx = M.find("port" + std::to_string(i) + "_cmd"); Cmd *a = new Cmd; a->k = 0; a->port = i; a->async = true; a->idx = p.cidx; a->start = 15 * 8; a->fc = 3; a->type = DAX_UINT; a->dev = 0; a->unit = 0; a->addr = 0; a->len = 1; a->mode = 0; a->interval = 0; p.as = a; bytag[p.cidx] = a; if(M.tagbytes(M.db[p.cidx].type, 1) != 255) violation("[setup] the command tag of port %d has %u bytes", i, M.tagbytes(M.db[p.cidx].type, 1)); }
            for(auto k : cmds) if(k->late) { sleep_us(h.Q(1500000)); h.add(k, true); count("tags made after the module's start"); }
            // every command that waits for something has its events
            auto has = [](int idx) { for(auto &e : M.db[idx].events) if(e.w == mw) return true; return false; };
            auto events = [=] { for(auto k : cmds) { if(k->mode & TRIG && !has(k->tidx)) return false; if(k->mode & (WRITE | CHANGE) && !has(k->idx)) return false; } for(auto &p : ports) if(!has(p.cidx) || !has(p.eidx)) return false; return true; };
            if(!wait_until([=] { return !mp->alive || events(); }, 15 * S, "module events")) { for(auto k : cmds) { if(k->mode & TRIG && !has(k->tidx)) violation("[events] the trigger of %s has no event", nm(k)); if(k->mode & (WRITE | CHANGE) && !has(k->idx)) violation("[events] the data of %s has no event", nm(k)); } violation("[events] the tags of a port have no events"); }
            usec lim = 0; for(auto &p : ports) lim += (p.retries + 1) * (p.timeout * 3 + 1000) * 12 * MS; lim = lim * 8 + 200 * S;
            int rounds = 0; while(rounds++ < 12 && more(c->stream, 0.12)) { h.burst(true); if(h.Q(2)) h.other(); h.barrier(lim); if(h.Q(3) == 0) sleep_us(h.Q(1500) * MS); }
            // the faults stop
            faults = false; for(auto &k : cs) k.second->old = true; cfg.p_delay = 0; cfg.p_stall = 0; cfg.p_eintr = 0; for(auto d : devs) if(!d->up) start_dev(d); trace("the faults stop");
            for(int i = 0; i < np; i++) for(size_t k = 0; k < ports[i].cmds.size(); k++) if(h.Q(3) == 2 && ports[i].cmds[k] != cmds[0]) { h.enable(i, k, h.Q(4)); h.barrier(lim); }
            h.barrier(lim); usec work = 0; for(auto &p : ports) work += p.scanrate + p.timeout * (p.retries + 1) * (int)p.cmds.size() + p.delay * (int)p.cmds.size(); sleep_us((work + 1000) * MS);
            usec longest = 0; for(auto k : cmds) if(k->mode & CONT) longest = std::max<usec>(longest, std::max(1, k->interval) * ports[k->port].scanrate * MS); usec W = std::min<usec>((g_many ? 8 : 20) * S, longest * 12 + 500 * MS), t0 = now, w0 = now + rt_offset; (void)w0;
            std::vector<uint64_t> s0; for(auto k : cmds) s0.push_back(k->sends); std::vector<uint64_t> e0; for(auto k : cmds) e0.push_back(k->events); uint64_t asn = 0;
            while(now - t0 < W) { usec b0 = now; auto l = h.burst(false); h.barrier(60 * S); for(auto &p : ports) if(p.as->outcome != -1) asn++; (void)b0;
                for(size_t i = 0; i < cmds.size(); i++) { Cmd *k = cmds[i]; uint64_t ds = k->sends - s0[i], de = k->events - e0[i]; if(k->mode & CONT) continue; if(ds < (k->enable ? de : 0) || ds > (k->enable ? de + k->olds : 0)) violation("[missed] %s was sent %llu times for %llu events, it is %s and the devices answer", nm(k), (unsigned long long)ds, (unsigned long long)de, k->enable ? "enabled" : "disabled");
                    if(ds && !k->rd()) { Bits w = window(k); int n = k->nbits(), e = std::min(n, k->tbits()); bool same = k->mode & (WRITE | CHANGE); for(int j = 0; j < e && same; j++) if(k->onDev[j] != w[j]) violation("[missed] the device has %s from %s, the tag is %s", bs(k->onDev).c_str(), nm(k), bs(w).c_str()); } }
                sleep_us(std::min<usec>(h.Q(1200) * MS, std::max<usec>(0, t0 + W - now))); }
            usec span = now - t0; std::vector<usec> over_(np); for(int i = 0; i < np; i++) over_[i] = (usec)ports[i].cmds.size() * (ports[i].delay + 25) * MS;
            for(size_t i = 0; i < cmds.size(); i++) { Cmd *k = cmds[i]; if(!(k->mode & CONT)) continue; Port &p = ports[k->port]; uint64_t n = k->sends - s0[i], extra = k->events - e0[i]; bool on = k->enable && p.enable; usec per = std::max(1, k->interval) * p.scanrate * MS, slow = std::max(1, k->interval) * (p.scanrate * MS + over_[k->port]);
                if(!on) { if(n > (k->enable ? extra + k->olds : 0)) violation("[disabled] %s was sent %llu times while it is switched off", nm(k), (unsigned long long)n); continue; }
                uint64_t hi = span / (per - 2 * MS * std::max(1, k->interval)) + 2 + extra + k->olds, lo = span / slow; lo = lo > 2 ? lo - 2 : 0;
                if(n > hi) violation("[too-often] %s was sent %llu times in %lld ms, every %lld ms is configured", nm(k), (unsigned long long)n, (long long)span / MS, (long long)per / MS);
                if(n < lo) violation("[too-seldom] %s was sent %llu times in %lld ms, every %lld ms is configured", nm(k), (unsigned long long)n, (long long)span / MS, (long long)per / MS);
                count("periods checked"); }
            sleep_us((work + 1000) * MS + longest);
            for(auto k : cmds) { Port &p = ports[k->port]; if(!k->enable || !(k->mode & CONT) || !p.enable) continue; Bits w = window(k); int n = k->nbits(), e = std::min(n, k->tbits());
                if(k->rd()) e = e / k->tb() * k->tb();
                for(int j = 0; j < e; j++) { bool want = k->rd() ? devbit(k, j, k->salt) : k->onDev[j]; if(w[j] != want) violation("[not-updated] %s: the device and the tag differ at bit %d (%s)", nm(k), j, bs(w).c_str()); } count("final values compared"); }
            uint64_t hsh = nd; for(auto k : cmds) { hsh = hsh * 31 + k->fc * 8 + k->mode; hsh = hsh * 31 + std::min<uint64_t>(3, k->sends) + 4 * std::min<uint64_t>(3, k->answers); } state(hsh); simi::finish(0);
        });
        (void)hc; if(!wait_until([ready] { return *ready; }, 60 * S, "setup")) harness_error("setup");
        mp = start_program("modbus", modbus_main, {"-C", memfile(lua), "-U", SRV_SOCK});
        wait_until([] { return !mp->alive || wire_of_proc(mp); }, 30 * S, "module connection"); mp->nopreempt = false; mw = wire_of_proc(mp);
        // devices come and go, the clock is set, signals arrive
        for(;;) {
            sleep_us(choose(ST_FAULT, 3000) * MS + 1); if(!mp->alive) violation("[exit] the Modbus module ended: %s", mp->death.c_str()); if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str());
            if(!faults) { continue; }
            int w = choose(ST_FAULT, 10);
            if(w < 3) { Dev *d = devs[choose(ST_FAULT, nd)]; if(d->up) stop_dev(d); else start_dev(d); }
            else if(w == 3) { for(auto d : devs) if(!d->up) start_dev(d); }
            else if(w == 4) clock_jump((choose(ST_FAULT, 2) ? 1 : -1) * (choose(ST_FAULT, 2) ? (int64_t)choose(ST_FAULT, 5000) * MS : (int64_t)choose(ST_FAULT, 40000) * S));
            else if(w == 5) { static const int sg[] = {SIGUSR1, SIGHUP, SIGCHLD, SIGPIPE}; fired(F_SIGNAL); deliver_signal(mp, sg[choose(ST_FAULT, 4)]); }
            else if(w == 6) { for(auto &k : cs) { Conn *c = k.first; if(c->accepted && !c->reset && choose(ST_FAULT, 3) == 0 && !c->p[0].fin && !c->p[1].fin) { fired(F_CONNRESET); if(k.second->port >= 0) ports[k.second->port].progress = true; conn_reset(c); } } }
        }
    })->main);
    run_loop();
}
}
SCENARIO("C18", "Modbus TCP client", 1, c18, REALC, STUBC)
