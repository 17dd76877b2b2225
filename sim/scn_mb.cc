// C17: the Modbus TCP server, its clients, the tag server and a module that works with the same tags
#include "api.h"
#include "runout.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
static const char *REALC = "Modbus module (all of src/modules/modbus) with its Lua configuration and callbacks, tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, threads, locks, clocks, signals and disk are simulated; Modbus clients and the other module are scripted";
namespace {
enum { COIL = 0, DISC, HOLD, INPUT };
static const char *kindname[] = {"COIL", "DISCRETE", "HOLDING", "INPUT"};
struct Reg { int size = 0; std::string tag; int idx = -1; };
struct Node { int port = 0, id = 0; Reg r[4]; int rcb = 0, wcb = 0; bool scratch = false; uint64_t rcalls_min = 0, rcalls_max = 0, wcalls_min = 0, wcalls_max = 0; std::map<int, int> rcodes, wcodes; }; // callbacks: 0 none, 1 returns 0, 2 refuses some addresses, 3 answers with the number of calls so far
std::vector<Node *> nodes; Node *find_node(int port, int id) { Node *z = nullptr; for(auto n : nodes) if(n->port == port) { if(n->id == id) return n; if(n->id == 0) z = n; } return z; }
// the history of every register tag, and the writes the module made to it that are not attributed yet
struct Hist { uint64_t base = 0; std::deque<Bytes> v; std::map<std::string, std::deque<uint64_t>> done; std::map<std::string, int> open; std::map<std::string, std::vector<uint64_t>> all; bool scratch = false; };
std::map<int, Hist> hist; Wire *mw; bool over;
uint64_t top(Hist &h) { return h.base + h.v.size() - 1; }
struct Req { Bytes f; int tid, unit, fc, addr = 0, cnt = 0; Node *n = nullptr; bool answer = true, exact = true; std::vector<int> exc; bool okpossible = true; int idx = -1; Bytes bits; std::string key; bool writes = false; int cbexc = 0; uint64_t lo = 0; bool sent = false; usec t_sent = 0; };
struct Mb {
    int id, st, port, fd = -1; Conn *c = nullptr; std::deque<Req> q; Bytes in, out; std::map<int, uint64_t> last; int tid = 0; bool dead = false, hostile = false; uint64_t nans = 0;
    uint32_t R(uint32_t n) { return choose(st, n); } bool P(double p) { return flip(st, p); }
};
void put16(Bytes &b, int v) { b.push_back(v >> 8); b.push_back(v); }
bool getbit(const Bytes &b, uint32_t n) { return b[n / 8] >> (n % 8) & 1; }
std::string wkey(uint32_t bit, const Bytes &bits) { return std::to_string(bit) + ":" + std::string(bits.begin(), bits.end()); }
int cbcode(int addr) { return addr % 7 == 3 ? 4 + addr % 3 : 0; }
int cbcodew(int addr) { return addr % 5 == 2 ? 6 : 0; }
Req make(Mb &m) {
    Req q; static const int fcs[] = {3, 6, 16, 1, 5, 15, 2, 4, 3, 16, 15, 1}; Node *any = nullptr; std::vector<Node *> cand; for(auto n : nodes) if(n->port == m.port && !n->scratch) cand.push_back(n);
    any = cand[m.R(cand.size())]; q.unit = any->id; if(m.R(12) == 11) { q.unit = m.R(2) ? 99 : 0; }
    q.fc = fcs[m.R(12)]; q.n = find_node(m.port, q.unit); Node *n = q.n;
    if(n && !n->scratch && m.R(8)) { for(int k = 0; k < 12; k++) { int kk = q.fc == 1 || q.fc == 5 || q.fc == 15 ? COIL : q.fc == 2 ? DISC : q.fc == 4 ? INPUT : HOLD; if(n->r[kk].size) break; q.fc = fcs[m.R(12)]; } }
    if(m.R(25) == 24) { static const int odd[] = {0, 7, 8, 11, 12, 17, 20, 21, 22, 23, 24, 43, 65, 100}; q.fc = odd[m.R(14)]; }
    m.tid = m.R(6) == 5 ? (int)m.R(65536) : m.R(9) == 8 ? m.tid : (m.tid + 1) & 65535; q.tid = m.tid;
    int k = q.fc == 1 || q.fc == 5 || q.fc == 15 ? COIL : q.fc == 2 ? DISC : q.fc == 3 || q.fc == 6 || q.fc == 16 ? HOLD : q.fc == 4 ? INPUT : -1; bool bit = k == COIL || k == DISC; Reg *r = n && k >= 0 ? &n->r[k] : nullptr;
    Bytes p; p.push_back(q.unit); p.push_back(q.fc); q.answer = n != nullptr;
    if(k < 0) { int l = m.R(20); for(int i = 0; i < l; i++) p.push_back(m.R(256)); q.exc.push_back(1); q.okpossible = false; if(q.fc == 8) {} }
    else {
        int size = r && r->size ? r->size : 20, rd = q.fc <= 4, max = rd ? (bit ? 2000 : 125) : q.fc == 15 ? 1968 : q.fc == 16 ? 123 : 1;
        if(m.P(0.93)) { q.addr = m.R(5) == 4 ? size - 1 - m.R(std::min(size, 3)) : m.R(size); } else { int e[] = {size, size + 1, 65535, 65534}; q.addr = e[m.R(4)]; if(q.addr > 65535) q.addr = 65535; }
        int room = std::max(1, std::min(max, size - q.addr)); q.cnt = q.fc == 5 || q.fc == 6 ? 1 : m.P(0.9) ? (m.R(4) ? 1 + m.R(std::min(room, 40)) : m.R(3) ? room - m.R(std::min(room, 9)) : room) : 0; if(q.cnt == 0) { int e[] = {0, room + 1, max, max + 1, 65535, 256, 32768}; q.cnt = e[m.R(7)]; }
        if(q.fc == 6 || q.fc == 16 || q.fc == 5 || q.fc == 15) q.writes = true;
        put16(p, q.addr);
        if(q.fc <= 4) { put16(p, q.cnt); if(q.cnt == 0 || q.cnt > max) { q.exc.push_back(3); } }
        else if(q.fc == 5) { bool on = m.R(2); p.push_back(on ? 255 : 0); p.push_back(0); q.bits = {(uint8_t)on}; }
        else if(q.fc == 6) { int v = m.R(4) ? m.R(65536) : m.R(4); put16(p, v); for(int i = 0; i < 16; i++) q.bits.push_back(v >> i & 1); }
        else { int c = std::min(q.cnt, max), bytes = bit ? (c + 7) / 8 : c * 2; put16(p, q.cnt); p.push_back(bytes); uint64_t z = choose64(m.st) | 1; Bytes d(bytes); for(auto &x : d) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; x = z >> 24; } p.insert(p.end(), d.begin(), d.end());
            if(q.cnt == 0 || q.cnt > max) q.exc.push_back(3);
            if(bit) for(int i = 0; i < c; i++) q.bits.push_back(d[i / 8] >> (i % 8) & 1); else for(int i = 0; i < c; i++) { int v = d[i * 2] << 8 | d[i * 2 + 1]; for(int b = 0; b < 16; b++) q.bits.push_back(v >> b & 1); } }
        if(!r || !r->size) { q.exc.clear(); q.exc.push_back(1); }
        else { if(q.addr + q.cnt > r->size) q.exc.push_back(2); q.idx = r->idx; }
        q.okpossible = q.exc.empty();
        if(n && n->rcb == 2 && rd && cbcode(q.addr)) { q.exc.push_back(cbcode(q.addr)); q.okpossible = false; }
        if(n && n->rcb == 3 && rd) { q.exc.clear(); q.exc.push_back(-1); q.okpossible = false; }
        if(n && n->wcb == 2 && q.writes && q.okpossible) q.cbexc = cbcodew(q.addr); if(n && n->wcb == 3 && q.writes && q.okpossible) q.cbexc = -1;
        if(q.writes && q.okpossible) q.key = wkey(bit ? q.addr : q.addr * 16, q.bits);
        if(n && n->scratch) q.exact = false;
    }
    put16(q.f, q.tid); put16(q.f, 0); put16(q.f, p.size()); q.f.insert(q.f.end(), p.begin(), p.end());
    return q;
}
void open_write(Req &q, int d) { if(!q.key.empty() && q.exact) hist[q.idx].open[q.key] += d; }
// sends a batch of requests cut into pieces at arbitrary places
void transmit(Mb &m, std::vector<Req> &batch) {
    std::vector<size_t> ends; Bytes all; size_t first = m.q.size();
    for(auto &q : batch) { all.insert(all.end(), q.f.begin(), q.f.end()); ends.push_back(all.size()); m.q.push_back(q); }
    size_t pos = 0, e = 0; int style = m.R(4);
    while(pos < all.size() && !m.dead) {
        size_t left = all.size() - pos, n = left; if(style == 1) n = 1 + m.R(std::min<size_t>(left, 4)); else if(style == 2) n = 1 + m.R(left); else if(style == 3) n = std::min<size_t>(left, 1 + m.R(30));
        while(e < ends.size() && ends[e] <= pos + n) { Req &q = m.q[first + e]; q.sent = true; q.t_sent = now; q.lo = q.idx >= 0 && hist.count(q.idx) ? top(hist[q.idx]) : 0; open_write(q, 1); if(q.n) { if(q.fc >= 1 && q.fc <= 4) q.n->rcalls_max++; else if(q.okpossible && q.writes) q.n->wcalls_max++; } e++; }
        if(n < left) { fired(F_SEGMENT); count("Modbus bytes sent in pieces"); }
        size_t o = 0; while(o < n) { ssize_t r = sim_write(m.fd, &all[pos + o], n - o); if(r < 0) { if(errno == EINTR) continue; m.dead = true; break; } o += r; }
        pos += n; if(pos < all.size() && m.R(3)) { int k = m.R(12); usec d = k < 8 ? m.R(3000) : k < 11 ? m.R(100000) : m.R(2500000); if(k == 11) { fired(F_DELAY); count("pauses in a request over 1 s"); } sleep_us(d); }
    }
}
void seen_write(Mb &m, Req &q) { for(uint64_t v : hist[q.idx].all[q.key]) if(v > q.lo) { m.last[q.idx] = std::max(m.last[q.idx], v); return; } } // the earliest moment it can have been carried out
void check_answer(Mb &m, const Bytes &a) {
    while(!m.q.empty() && !m.q.front().answer && m.q.front().sent) m.q.pop_front();
    if(m.q.empty() || !m.q.front().sent) violation("[extra-answer] Modbus client %d got an answer %s without a complete request", m.id, hex(a).c_str());
    Req q = m.q.front(); m.q.pop_front(); m.nans++; std::string qs = hex(q.f);
    int tid = a[0] << 8 | a[1], pro = a[2] << 8 | a[3];
    if(tid != q.tid) violation("[tid] Modbus client %d: the answer to %s has transaction %d instead of %d", m.id, qs.c_str(), tid, q.tid);
    if(pro) violation("[frame] the answer to %s has protocol %d", qs.c_str(), pro);
    if(a.size() < 9) violation("[frame] the answer to %s is too short: %s", qs.c_str(), hex(a).c_str());
    if(a[6] != q.unit) violation("[frame] the answer to %s comes from unit %d", qs.c_str(), a[6]);
    if(a[7] == (q.fc | 0x80) && (a[7] != q.fc || q.fc >= 0x80)) {
        if(a.size() != 9) violation("[frame] the exception for %s has %zu bytes", qs.c_str(), a.size());
        bool rn = q.exc.size() && q.exc[0] == -1 && a[8] >= 20, wn = q.cbexc == -1 && a[8] >= 20; if(rn) q.n->rcodes[a[8]]++; if(wn) q.n->wcodes[a[8]]++; bool ok = rn || wn || std::count(q.exc.begin(), q.exc.end(), a[8]) || (q.cbexc && a[8] == q.cbexc); if(q.exc.size() && (a[8] == 2 || a[8] == 3)) for(int x : q.exc) if(x == 2 || x == 3) ok = true;
        if(!q.exact && q.writes && a[8] == 4) ok = true;
        if(!ok) violation("[exception] Modbus client %d: the answer to %s is exception %d%s", m.id, qs.c_str(), a[8], q.exc.empty() ? ", the request is valid" : "");
        count("Modbus exceptions checked");
        if((wn || (q.cbexc && a[8] == q.cbexc)) && q.exact) { auto &d = hist[q.idx].done[q.key]; if(d.empty()) violation("[not-written] the write %s was answered with the callback's exception but not carried out", qs.c_str()); seen_write(m, q); d.pop_front(); open_write(q, -1); q.n->wcalls_min++; }
        else if(!q.key.empty()) open_write(q, -1);
        if(q.n->rcb && q.fc >= 1 && q.fc <= 4) q.n->rcalls_min++;
        return;
    }
    if(a[7] != q.fc) violation("[frame] the answer to %s has function %d", qs.c_str(), a[7]);
    if(q.cbexc) violation("[exception] the write %s was answered as good, the callback refused it", qs.c_str());
    if(!q.okpossible) violation("[accepted] Modbus client %d: the invalid request %s was answered with %s", m.id, qs.c_str(), hex(a).c_str());
    if(q.n->rcb && q.fc <= 4) q.n->rcalls_min++;
    if(q.writes) {
        if(a.size() != 12 || memcmp(&a[8], &q.f[8], 4)) violation("[frame] the answer to the write %s is %s", qs.c_str(), hex(a).c_str());
        count("Modbus writes checked"); if(!q.exact) return; q.n->wcalls_min++;
        auto &d = hist[q.idx].done[q.key]; if(d.empty()) violation("[not-written] Modbus client %d: the write %s was answered but not carried out", m.id, qs.c_str());
        seen_write(m, q); d.pop_front(); open_write(q, -1); return;
    }
    bool bit = q.fc <= 2; int bytes = bit ? (q.cnt + 7) / 8 : q.cnt * 2;
    if((int)a.size() != 9 + bytes || a[8] != (bytes & 255)) violation("[frame] Modbus client %d: the answer to %s has %zu bytes, byte count %d", m.id, qs.c_str(), a.size(), a[8]);
    count("Modbus reads checked"); if(!q.exact) return;
    Hist &h = hist[q.idx]; uint64_t lo = std::max(q.lo, m.last[q.idx]); bool ok = false; uint64_t v;
    for(v = std::max(lo, h.base); v <= top(h) && !ok; v++) {
        const Bytes &d = h.v[v - h.base]; ok = true;
        if(bit) { for(int i = 0; i < bytes * 8 && ok; i++) { bool x = getbit(a, 72 + i); if(i < q.cnt ? x != getbit(d, q.addr + i) : x) ok = false; } }
        else for(int i = 0; i < q.cnt && ok; i++) ok = a[9 + i * 2] == d[(q.addr + i) * 2 + 1] && a[10 + i * 2] == d[(q.addr + i) * 2];
        if(ok) break;
    }
    if(!ok) violation("[stale] Modbus client %d: the answer %s to %s is not what the registers held at any time since the request was sent (%llu states)", m.id, hex(a).c_str(), qs.c_str(), (unsigned long long)(top(h) - lo + 1));
    m.last[q.idx] = v; nontrivial();
}
// takes in what there is; returns when nothing is expected any more, or after the given time
bool receive(Mb &m, size_t until, usec limit) {
    usec end = now + limit;
    auto waiting = [&] { size_t n = 0; for(auto &q : m.q) if(q.answer) n++; return n; };
    for(;;) {
        while(m.in.size() >= 6) { size_t l = 6 + (m.in[4] << 8 | m.in[5]); if(l > 300) violation("[frame] Modbus client %d got a frame that says it has %zu bytes", m.id, l); if(m.in.size() < l) break; Bytes a(m.in.begin(), m.in.begin() + l); m.in.erase(m.in.begin(), m.in.begin() + l); if(l < 8) violation("[frame] Modbus client %d got a frame of %zu bytes", m.id, l); check_answer(m, a); }
        if(waiting() <= until && limit > 0) return true;
        usec l = std::max<usec>(1, end - now); if(now >= end && limit > 0) return false;
        struct timeval tv = {(time_t)(l / 1000000), (suseconds_t)(l % 1000000)}; if(limit == 0) tv = {0, 1}; sim_setsockopt(m.fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        uint8_t b[600]; ssize_t r = sim_read(m.fd, b, 1 + m.R(600)); if(r > 0) m.in.insert(m.in.end(), b, b + r); else if(r == 0) { m.dead = true; return false; } else if(errno != EINTR && errno != EAGAIN) { m.dead = true; return false; } else if(limit == 0) return true;
    }
}
int mconnect(Mb &m, int portno) {
    cur->proc->noeintr = true;
    for(int k = 0; k < 20; k++) {
        m.fd = sim_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(portno);
        if(!sim_connect(m.fd, (struct sockaddr *)&a, sizeof a)) { for(auto c : conns) if(c->owner[0] == cur->proc) m.c = c; m.dead = false; m.q.clear(); m.in.clear(); m.last.clear(); return 0; }
        sim_close(m.fd); sleep_us(200000);
    }
    return -1;
}
void attach(Model *) {
    on_answer = [](Wire *w, const Frame &rq, const Frame &rsp) {
        for(auto &kv : hist) { int i = kv.first; Hist &h = kv.second; if(h.scratch || i >= (int)M.db.size()) continue; bool changed = h.v.back() != M.db[i].data;
            if(w == mw && !over && (rq.cmd == C_WRITE || rq.cmd == C_MWRITE) && !(rsp.cmd & RERR) && rq.d.size() > 8) {
                int32_t idx; uint32_t off; memcpy(&idx, &rq.d[0], 4); memcpy(&off, &rq.d[4], 4);
                if(idx == i) {
                    uint32_t n = rq.cmd == C_WRITE ? rq.d.size() - 8 : (rq.d.size() - 8) / 2, first = 0; Bytes bits; bool gap = false, started = false;
                    for(uint32_t b = 0; b < n * 8; b++) { bool t = rq.cmd == C_WRITE || (rq.d[8 + n + b / 8] >> (b % 8) & 1); if(t) { if(!started) first = off * 8 + b, started = true; else if(first + bits.size() != off * 8 + b) gap = true; bits.push_back(rq.d[8 + b / 8] >> (b % 8) & 1); } }
                    std::string k = wkey(first, bits); int open = h.open.count(k) ? h.open[k] : 0;
                    // a whole-byte write of bits ends at the tag's last bit
                    if(gap || (int)h.done[k].size() >= open) violation("[spurious-write] the Modbus module wrote %zu bits at bit %u of %s: no request that is still to be carried out says so (%d outstanding, %zu carried out)", bits.size(), first, M.db[i].name.c_str(), open, h.done[k].size());
                    h.v.push_back(M.db[i].data); h.done[k].push_back(top(h)); h.all[k].push_back(top(h)); count("Modbus writes attributed"); changed = false;
                }
            }
            if(changed) h.v.push_back(M.db[i].data);
            while(h.v.size() > 3000) { h.v.pop_front(); h.base++; }
        }
    };
}
}
static void c17() {
    world_init(); model_attach(); swarm_net(); cfg.sockbuf = std::max<size_t>(cfg.sockbuf, 5000); nodes.clear(); hist.clear(); mw = nullptr; over = false; attach(nullptr);
    mark_root(spawn("ctl", [] {
        start_server(); int np = 1 + choose(ST_CFG, 2), hostiles = choose(ST_CFG, 4), nmb = 1 + choose(ST_CFG, 4), ndax = choose(ST_CFG, 3); bool lossy = choose(ST_CFG, 2);
        std::string lua; static const int ids[] = {170, 187, 204}; static const int sizes[] = {1, 8, 16, 20, 33, 130, 300, 2100, 5000};
        for(int p = 0; p < np; p++) {
            lua += "p={} p.name=\"port" + std::to_string(p) + "\" p.enable=true p.ipaddress=\"0.0.0.0\" p.socket=\"TCP\" p.bindport=" + std::to_string(5502 + p) + " p.type=\"SERVER\" p.protocol=\"TCP\" p.scanrate=1000 p.timeout=1000 p.retries=2 p.maxfailures=20 p.inhibit=10\nid" + std::to_string(p) + "=add_port(p)\n";
            auto add = [&](int id, bool scratch) {
                Node *n = new Node; n->port = p; n->id = id; n->scratch = scratch; std::string pre = "mb" + std::to_string(p) + "_" + std::to_string(id) + "_";
                bool one = false; for(int k = 0; k < 4; k++) { if(choose(ST_CFG, 5) == 4 && (one || k < 3)) continue; one = true; n->r[k].size = sizes[choose(ST_CFG, 9)]; n->r[k].tag = pre + std::string(1, "cdhi"[k]);
                    if(k == DISC && n->r[COIL].size && choose(ST_CFG, 6) == 5) { n->r[k] = n->r[COIL]; } if(k == INPUT && n->r[HOLD].size && choose(ST_CFG, 6) == 5) n->r[k] = n->r[HOLD];
                    lua += "add_register(id" + std::to_string(p) + "," + std::to_string(id) + ",\"" + n->r[k].tag + "\"," + std::to_string(n->r[k].size) + "," + kindname[k] + ")\n"; }
                if(!scratch) { int c = choose(ST_CFG, 8); n->rcb = c == 4 ? 3 : c == 5 ? 1 : c >= 6 ? 2 : 0; c = choose(ST_CFG, 8); n->wcb = c == 4 ? 3 : c == 5 ? 1 : c >= 6 ? 2 : 0; }
                auto cb = [&](const char *fn, const char *suffix, int mode, const char *rule) { std::string v = "n_" + pre + suffix; lua += v + "=0\n" + fn + "(id" + std::to_string(p) + "," + std::to_string(id) + ",function(n,f,r,c) " + v + "=" + v + "+1 " + (mode == 3 ? "return 20+" + v + "%200 " : mode == 2 ? rule : "return 0 ") + "end)\n"; };
                if(n->rcb) cb("add_read_callback", "rcb", n->rcb, "if r % 7 == 3 then return 4 + r % 3 end return 0 "); if(n->wcb) cb("add_write_callback", "wcb", n->wcb, "if r % 5 == 2 then return 6 end return 0 ");
                nodes.push_back(n); };
            int nn = 1 + choose(ST_CFG, 3); for(int i = 0; i < nn; i++) add(ids[i], false);
            if(choose(ST_CFG, 2)) add(0, true);
            add(7, true);
        }
        trace("configuration:\n%s", lua.c_str());
        Proc *mp = start_program("modbus", modbus_main, {"-C", memfile(lua), "-U", SRV_SOCK});
        if(!wait_until([=] { for(int p = 0; p < np; p++) if(!listening("tcp:" + std::to_string(5502 + p))) return !mp->alive; return true; }, 30 * 1000000LL, "Modbus start") || !mp->alive) violation("[start] the Modbus module did not start (%s)", mp->death.c_str());
        mp->nopreempt = false; mw = wire_of_proc(mp); if(!mw) harness_error("no module wire");
        for(auto n : nodes) for(auto &r : n->r) if(r.size) { r.idx = M.find(r.tag); if(r.idx < 0) violation("[start] the register tag %s does not exist", r.tag.c_str()); Hist &h = hist[r.idx]; h.scratch = n->scratch; if(h.v.empty()) h.v.push_back(M.db[r.idx].data); }
        std::vector<Client *> ds; bool *stop = new bool(false); std::vector<Proc *> ps, hs;
        for(int i = 0; i < ndax; i++) ds.push_back(run_client(40 + i, "other" + std::to_string(i), [=](Client *c) {
            std::vector<Reg *> rs; for(auto n : nodes) if(!n->scratch) for(auto &r : n->r) if(r.size) rs.push_back(&r);
            while(!*stop) { Reg &r = *rs[choose(c->stream, rs.size())]; MTag &t = M.db[r.idx]; tag_handle h; bool bits = t.type == DAX_BOOL; uint32_t n = t.count, a = choose(c->stream, n), k = 1 + choose(c->stream, std::min<uint32_t>(n - a, 40));
                h = bits ? H(r.idx, a / 8, a % 8, k, boolbytes(a % 8, k), DAX_BOOL) : H(r.idx, a * 2, 0, k, k * 2, DAX_UINT);
                if(choose(c->stream, 4) == 0) api_read(c, h); else { Bytes d(h.size); for(auto &x : d) x = choose(c->stream, 256); api_write(c, h, d); count("writes of another module"); }
                sleep_us(choose(c->stream, choose(c->stream, 3) ? 30000 : 300000)); } }));
        for(int i = 0; i < nmb; i++) { int port = choose(ST_CFG, np); ps.push_back(spawn("mbclient" + std::to_string(i), [=] {
            Mb m; m.id = i; m.st = ST_ACTOR0 + i; m.port = port; int lives = 1 + (lossy ? m.R(3) : 0);
            for(int life = 0; life < lives; life++) {
                if(mconnect(m, 5502 + port)) violation("[connect] Modbus client %d cannot connect", i);
                int k = 0; bool gone = false;
                while(k++ < 60 && more(m.st, 0.03)) {
                    std::vector<Req> b; int n = m.R(3) == 2 ? 1 + m.R(8) : 1; while((int)(m.q.size() + n) > 12) n--; if(n < 1) n = 1; for(int j = 0; j < n; j++) b.push_back(make(m));
                    if(n > 1) { fired(F_COALESCE); count("Modbus requests merged", n); }
                    bool cut = lossy && life + 1 < lives && m.R(20) == 19;
                    if(cut) { // the connection ends in the middle of a request, or right behind one
                        Bytes all; size_t last = 0; for(auto &q : b) { last = all.size(); all.insert(all.end(), q.f.begin(), q.f.end()); } if(m.R(2)) all.resize(last + 1 + m.R(all.size() - last - 1));
                        size_t o = 0; for(auto &q : b) { o += q.f.size(); if(o <= all.size()) { q.sent = true; open_write(q, 1); if(q.n) { if(q.fc >= 1 && q.fc <= 4) q.n->rcalls_max++; else if(q.okpossible && q.writes) q.n->wcalls_max++; } } }
                        size_t w = 0; while(w < all.size()) { ssize_t r = sim_write(m.fd, &all[w], all.size() - w); if(r < 0) { if(errno == EINTR) continue; break; } w += r; }
                        if(m.R(2)) { fired(F_CONNRESET); conn_reset(m.c); } else sleep_us(m.R(2000)); count("Modbus connections lost midway"); gone = true; break; }
                    transmit(m, b); if(m.dead) violation("[closed] the connection of Modbus client %d was closed", i);
                    bool lazy = m.R(4) == 3 && m.q.size() < 8; if(lazy) { continue; }
                    size_t left = m.R(5) == 4 ? 3 : 0; usec t0 = now;
                    if(!receive(m, left, 20000000)) { if(m.dead) violation("[closed] the connection of Modbus client %d was closed", i); violation("[no-answer] Modbus client %d waits for the answer to %s for %lld ms", i, hex(m.q.front().f).c_str(), (long long)(now - t0) / 1000); }
                    if(m.R(3) == 0) sleep_us(m.R(20000));
                }
                if(!gone && !receive(m, 0, 20000000)) { if(m.dead) violation("[closed] the connection of Modbus client %d was closed", i); violation("[no-answer] Modbus client %d waits for the answer to %s", i, hex(m.q.front().f).c_str()); }
                if(!gone) { sleep_us(300000); receive(m, 0, 0); if(m.dead) violation("[closed] the connection of Modbus client %d was closed", i); while(m.q.size() && !m.q.front().answer) m.q.pop_front(); if(m.in.size() || m.q.size()) violation("[extra-answer] Modbus client %d has %zu bytes too many", i, m.in.size()); }
                sim_close(m.fd);
            } })); }
        for(int i = 0; i < hostiles; i++) { int port = choose(ST_CFG, np); hs.push_back(spawn("mbhostile" + std::to_string(i), [=] {
            int st = ST_ACTOR0 + 20 + i; Mb m; m.id = 100 + i; m.st = st; m.port = port; cur->proc->noeintr = true; int rounds = 0;
            while(more(st, 0.2) && rounds++ < 6) {
                int style = choose(st, 6), nc = style == 4 ? 1 + choose(st, 12) : 1; std::vector<Mb> open;
                for(int k = 0; k < nc; k++) { Mb x = m; if(mconnect(x, 5502 + port)) continue; struct timeval tv = {2, 0}; sim_setsockopt(x.fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); open.push_back(x); }
                for(auto &x : open) {
                    int nf = style == 3 ? 600 : 1 + choose(st, 12);
                    for(int k = 0; k < nf && !x.dead; k++) {
                        Bytes f; fired(F_GARBAGE); count("hostile Modbus frames");
                        if(style == 0) { int n = 1 + choose(st, 200); for(int j = 0; j < n; j++) f.push_back(choose(st, 256)); }
                        else if(style == 3) { put16(f, k); put16(f, 0); put16(f, 6); f.push_back(7); f.push_back(3); put16(f, 0); put16(f, 1); }
                        else { Req q; do q = make(x); while(!q.n); f = q.f; f[6] = choose(st, 2) ? 7 : choose(st, 100); int e[] = {0, 1, 2, 255, 256, 65535, (int)choose(st, 300), (int)f.size() - 6};
                            switch(choose(st, 7)) { case 0: { int l = e[choose(st, 8)]; f[4] = l >> 8; f[5] = l; break; } case 1: f.resize(1 + choose(st, f.size())); break; case 2: f[choose(st, f.size())] ^= 1 << choose(st, 8); break; case 3: { int n = choose(st, 40); for(int j = 0; j < n; j++) f.push_back(choose(st, 256)); break; } case 4: if(f.size() > 12) f[12] = choose(st, 256); break; case 5: f[8] = f[9] = f[10] = f[11] = 255; break; } }
                        for(auto &b : f) if(b == 170 || b == 187 || b == 204) b = 1;
                        // every hostile byte stays away from the checked nodes, so nothing put together from them can address one
                        size_t o = 0; while(o < f.size()) { ssize_t r = sim_write(x.fd, &f[o], f.size() - o); if(r < 0) { if(errno == EINTR) continue; x.dead = true; break; } o += r; }
                        if(style == 1) sleep_us(choose(st, 400000)); if(style == 5 && choose(st, 4) == 0) { fired(F_CONNRESET); conn_reset(x.c); x.dead = true; }
                    }
                    if(style == 3) { fired(F_STALL); count("Modbus clients that never read"); sleep_us(choose(st, 3000000)); }
                }
                if(choose(st, 3) == 0) sleep_us(choose(st, 1500000));
                for(auto &x : open) if(choose(st, 8)) sim_close(x.fd);
            } })); }
        if(choose(ST_CFG, 3) == 2) spawn("signals", [=] { int n = 1 + choose(ST_FAULT, 8); for(int k = 0; k < n; k++) { sleep_us(choose(ST_FAULT, 800000)); if(!mp->alive || over) return; static const int sg[] = {SIGUSR1, SIGHUP, SIGCHLD, SIGPIPE}; fired(F_SIGNAL); deliver_signal(mp, sg[choose(ST_FAULT, 4)]); } });
        auto done = [](std::vector<Proc *> v) { return [v] { for(auto p : v) if(p->alive && !p->main->done) return false; return true; }; };
        if(!wait_until([=] { return done(ps)() || !mp->alive; }, 900 * 1000000LL, "Modbus clients")) violation("[no-progress] the Modbus clients do not finish");
        if(!mp->alive) violation("[exit] the Modbus module ended: %s", mp->death.c_str());
        wait_until(done(hs), 120 * 1000000LL, "hostile Modbus clients"); for(auto p : hs) if(p->alive) kill_proc(p, true, 137, "end of the hostile client");
        // a later client is served on every port, and the callbacks ran once for every request
        for(int p = 0; p < np; p++) { Proc *l = spawn("mblate", [=] { Mb m; m.id = 90 + p; m.st = ST_ACTOR0 + 15 + p; m.port = p; if(mconnect(m, 5502 + p)) violation("[connect] a later Modbus client cannot connect to port %d", p); for(int k = 0; k < 6; k++) { std::vector<Req> b{make(m)}; transmit(m, b); if(m.dead || !receive(m, 0, 20000000)) violation("[no-answer] a later Modbus client is not served on port %d", p); } sim_close(m.fd); });
            if(!wait_until([=] { return l->main->done || !mp->alive; }, 200 * 1000000LL, "later Modbus client") || !mp->alive) violation("[exit] the Modbus module ended or does not go on: %s", mp->death.c_str()); }
        *stop = true; wait_clients(ds, 60 * 1000000LL, "other modules");
        if(!mp->alive) violation("[exit] the Modbus module ended: %s", mp->death.c_str()); if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str());
        for(auto n : nodes) for(int w = 0; w < 2; w++) { if((w ? n->wcb : n->rcb) != 3) continue; uint64_t lo = w ? n->wcalls_min : n->rcalls_min, hi = w ? n->wcalls_max : n->rcalls_max; std::map<int, int> &codes = w ? n->wcodes : n->rcodes; if(lo != hi) continue; count("callback counts checked");
            std::map<int, int> want; for(uint64_t i = 1; i <= lo; i++) want[20 + i % 200]++; if(want != codes) violation("[callback] the callback of node %d did not run exactly once for each of its %llu requests", n->id, (unsigned long long)lo); }
        over = true; deliver_signal(mp, SIGTERM); if(!wait_until([=] { return !mp->alive; }, 20 * 1000000LL, "Modbus end")) violation("[no-exit] the Modbus module does not end on SIGTERM");
    })->main);
    run_loop();
}
SCENARIO("C17", "Modbus TCP server", 3, c17, REALC, STUBC)
