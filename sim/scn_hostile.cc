// C15: hostile, broken and stalled connections, and memory running out, next to well-behaved modules
#include "rawgen.h"
#include "runout.h"
#include <algorithm>
#include <sys/socket.h>
#include <sys/time.h>
static const char *REALC = "tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, threads, locks, clocks, signals, memory limits and disk are simulated; module programs are scripted";
void audit(Client *c);
namespace {
std::set<int> prot, protq; // tags of the well-behaved modules: the hostile ones leave their indices alone (anybody may change them)
struct Hostile {
    int st; std::vector<int> own; uint32_t R(uint32_t n) { return choose(st, n); } bool P(double p) { return flip(st, p); }
    uint32_t num() { static const uint32_t v[] = {0, 1, 2, 7, 8, 9, 0xffffffff, 0x7fffffff, 0x80000000, 0x7ffffffe, 4088, 4084, 4096, 4095, 65535, 65536, 0x20000000, 0x1fffffff, 0x10000000, 100, 33, 32, 31, 0xfffffff8}; return R(3) ? v[R(24)] : R(2) ? R(40) : (uint32_t)choose64(st); }
    uint32_t idx() { switch(R(5)) { case 0: case 1: return own.empty() ? 11 + R(20) : own[R(own.size())]; case 2: return R(11); case 3: return 11 + R(60); default: return num(); } }
    uint32_t type() { static const uint32_t t[] = {DAX_BOOL, DAX_BYTE, DAX_SINT, DAX_CHAR, DAX_WORD, DAX_INT, DAX_UINT, DAX_DWORD, DAX_DINT, DAX_UDINT, DAX_REAL, DAX_LWORD, DAX_LINT, DAX_ULINT, DAX_TIME, DAX_LREAL}; switch(R(8)) { case 0: return DAX_CUSTOM | R(6); case 1: return DAX_QUEUE | t[R(16)]; case 2: return num(); case 3: return DAX_CUSTOM | num(); default: return t[R(16)]; } }
    uint32_t off() { return R(3) ? R(20) : num(); }
    Bytes rnd(uint32_t n) { Bytes b(n); int m = R(3); uint64_t z = m == 0 && n ? choose64(st) | 1 : 0; for(auto &x : b) { if(m == 0) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; x = z >> 24; } else x = m == 1 ? 0 : 0xff; } return b; }
    Bytes blob() { switch(R(5)) { case 0: return rnd(R(4)); case 1: return rnd(1 << R(9)); case 2: return rnd(R(60)); case 3: return rnd(3900 + R(188)); default: return rnd(8); } }
    std::string name(bool cdt = false) { (void)cdt; switch(R(9)) { case 0: return ""; case 1: return std::string(R(200), 'x'); case 2: return std::string(31 + R(4), 'y'); case 3: return "%s%n%d"; case 4: return std::string("a'b\"; DROP TABLE tags;--"); case 5: { Bytes b = rnd(R(40)); return std::string(b.begin(), b.end()); } case 6: return "_x"; default: return "a" + std::to_string(R(12)); } }
    std::string cdt() { std::string s = R(6) ? "ty" + std::to_string(R(10)) : name(); int n = R(8) == 7 ? 200 + R(100) : (int)R(5); for(int i = 0; i < n; i++) { s += R(20) ? ":" : ""; s += R(8) ? "m" + std::to_string(n > 10 ? i : R(6)) : name(); s += R(20) ? "," : ""; static const char *t[] = {"INT", "BOOL", "DINT", "LREAL", "byte", "NOPE", "", "ty0", "ty1", "ty2", "_module"}; s += t[R(11)]; s += R(20) ? "," : ""; s += R(5) ? std::to_string(1 + R(20)) : R(2) ? std::to_string(num()) : R(2) ? "-1" : "x"; } return s; }
    void handle(B &b) { b.u32(idx()).u32(off()).u8(R(4) ? R(8) : R(256)).u32(R(2) ? 1 + R(10) : num()).u32(R(2) ? 1 + R(16) : num()).u32(type()); }
    Bytes payload(uint32_t cmd) {
        B b; 
        switch(cmd) {
        case C_REG: if(R(4)) b.be32(R(2) ? 1000 : num()).be32(R(3) ? 1 : num()).str(R(2) ? "hostile" + std::to_string(R(3)) : name()); break;
        case C_ADD: b.u32(type()).u32(R(3) ? 1 + R(30) : num()).u32(R(2) ? 0 : R(2) ? R(64) : num()).str(name()); break;
        case C_DEL: b.u32(idx()); break;
        case C_GET: if(R(2)) b.u8(1).str(name()); else b.u8(R(6) ? 2 : R(256)).u32(idx()); break;
        case C_LIST: case C_EGET: b.vec(rnd(R(20))); break;
        case C_READ: b.u32(idx()).u32(off()).u32(R(3) ? 1 + R(20) : num()); break;
        case C_WRITE: case C_MWRITE: b.u32(idx()).u32(off()).vec(blob()); break;
        case C_EADD: b.u32(idx()).u32(off()).u32(R(3) ? 1 + R(10) : num()).u32(type()).u32(R(4) ? 1 + R(9) : num()).u32(R(3) ? 1 + R(16) : num()).u8(R(4) ? R(8) : R(256)).vec(rnd(R(20))); break;
        case C_EDEL: case C_MDEL: case C_MGET: b.u32(idx()).u32(R(3) ? R(6) : num()); break;
        case C_EOPT: b.u32(idx()).u32(R(3) ? R(6) : num()).u32(R(3)); break;
        case C_CDT: b.str(cdt()); break;
        case C_CDTGET: if(R(2)) b.u8(1).str(R(2) ? "ty" + std::to_string(R(10)) : name()); else b.u8(R(6) ? 2 : R(256)).u32(type()); break;
        case C_MADD: handle(b); handle(b); break;
        case C_GADD: { int n = R(5) ? R(6) : (R(2) ? 150 : 255); b.u8(R(6) ? n : R(256)).u8(R(3)); for(int i = 0; i < n; i++) handle(b); break; }
        case C_GDEL: case C_GREAD: b.u32(R(3) ? R(6) : num()); break;
        case C_GWRITE: case C_GMWRITE: b.u32(R(3) ? R(6) : num()).vec(blob()); break;
        case C_ATOMIC: b.u32(idx()).u32(off()).u32(R(3) ? 1 + R(4) : num()).u32(type()).u8(R(4) ? R(8) : R(256)).u16(R(12)).u16(0).vec(R(2) ? rnd(1 << R(5)) : blob()); break;
        case C_OADD: b.u32(idx()).u32(off()).u32(num()).vec(blob()); break;
        case C_ODEL: b.u32(idx()).u32(off()).vec(blob()); break;
        case C_OGET: b.u32(idx()).u32(off()).u32(R(2) ? R(30) : num()); break;
        case C_OSET: b.u32(idx()).u8(R(3)); break;
        default: b.vec(blob()); break;
        }
        Bytes v = b.v;
        switch(R(12)) { case 0: if(v.size()) v.resize(R(v.size())); break; case 1: { Bytes x = rnd(R(30)); v.insert(v.end(), x.begin(), x.end()); break; } case 2: if(v.size()) v[R(v.size())] ^= 1 << R(8); break; case 3: if(v.size() && !v.back()) v.pop_back(); break; }
        if(v.size() > 4088) v.resize(4088);
        // keep away from what belongs to the well-behaved ones
        auto fix = [&](size_t o) { uint32_t x; if(o + 4 <= v.size()) { memcpy(&x, &v[o], 4); if(prot.count((int)x)) { x = 0x7ffffff0; memcpy(&v[o], &x, 4); } } };
        if(cmd == C_READ) { uint32_t x = 0; if(v.size() >= 4) memcpy(&x, &v[0], 4); if(protq.count(x)) fix(0); } else if(cmd == C_MADD) { fix(0); fix(21); } else if(cmd == C_GADD) for(size_t o = 2; o < v.size(); o += 21) fix(o); else if(cmd != C_REG && cmd != C_ADD && cmd != C_CDT && cmd != C_CDTGET && cmd != C_GET) fix(0);
        return v;
    }
    uint32_t cmd() { return R(12) ? 1 + R(27) : R(2) ? R(64) : num(); }
    Bytes frame() { uint32_t c = R(4) ? cmd() : (uint32_t[]){C_ADD, C_WRITE, C_MADD, C_EADD, C_GADD, C_CDT}[R(6)]; Bytes d = payload(c), f = enc(c, d); if(R(40) == 0) { uint32_t s = __builtin_bswap32(num()); memcpy(&f[0], &s, 4); } return f; }
};
// what the server reads from the hostile connections: a frame that legitimately changes a well-behaved module's tag (put together from parts of others) ends the run
std::map<Conn *, Bytes> hconn;
void hostile_read(Conn *c, int side, const uint8_t *b, size_t n) {
    auto it = hconn.find(c); if(side != 1 || it == hconn.end()) return; Bytes &v = it->second; v.insert(v.end(), b, b + n);
    while(v.size() >= 8) {
        uint32_t sz, cmd; memcpy(&sz, &v[0], 4); memcpy(&cmd, &v[4], 4); sz = __builtin_bswap32(sz); cmd = __builtin_bswap32(cmd);
        if(sz < 8 || sz > 4096) { hconn.erase(it); return; }
        if(v.size() < sz) return;
        auto idx = [&](size_t o) { int32_t x; if(o + 4 > sz) return false; memcpy(&x, &v[o], 4); return prot.count(x) > 0; }; bool hit = false;
        if(cmd == C_READ) { int32_t x = -1; if(sz >= 12) memcpy(&x, &v[8], 4); hit = protq.count(x); } else if(cmd == C_MADD) hit = idx(8) || idx(29); else if(cmd == C_GADD) { for(size_t o = 10; o < sz; o += 21) hit |= idx(o); } else if(cmd != C_REG && cmd != C_ADD && cmd != C_CDT && cmd != C_CDTGET && cmd != C_GET) hit = idx(8);
        if(hit) { count("runs given up: a hostile frame changed a well-behaved module's tag"); simi::finish(0); }
        v.erase(v.begin(), v.begin() + sz);
    }
}
usec bound_us; // longest acceptable answer time
void timed(const char *what, usec t0) { if(now - t0 > bound_us) violation("[slow] %s of a well-behaved module took %lld ms", what, (long long)(now - t0) / 1000); }
void good(Client *c, bool *over) { // a module that only looks at its own things
    if(c->connect(30000)) violation("[connect] a well-behaved module could not connect");
    std::string nm = "good" + std::to_string(c->id); int st = c->stream; tag_handle h, b, q; int32_t v[8] = {0}; uint8_t bits[3] = {0}; std::deque<int16_t> qq; int evs = 0, wrote = 0; (void)evs;
#define G(call, what) do { usec t0 = now; int r_ = (call); if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str()); if(r_ < 0) violation("[refused] %s of a well-behaved module failed with %d after %lld ms", what, r_, (long long)(now - t0) / 1000); timed(what, t0); count("requests of well-behaved modules"); } while(0)
    G(dax_tag_add(c->ds, &h, (char *)nm.c_str(), DAX_DINT, 8, 0), "dax_tag_add"); prot.insert(h.index); G(dax_tag_add(c->ds, &b, (char *)(nm + "b").c_str(), DAX_BOOL, 20, 0), "dax_tag_add"); prot.insert(b.index); G(dax_tag_add(c->ds, &q, (char *)(nm + "q").c_str(), DAX_QUEUE | DAX_INT, 1, 0), "dax_tag_add"); prot.insert(q.index); protq.insert(q.index);
    static std::map<int, int> fired_; int id = c->id; dax_id ev; fired_[id] = 0;
    G(dax_event_add(c->ds, &h, EVENT_WRITE, nullptr, &ev, [](dax_state *, void *u) { (*(int *)u)++; }, &fired_[id], nullptr), "dax_event_add");
    tag_group_id *g; { int res = 0; tag_handle m[2] = {h, b}; usec t0 = now; g = dax_group_add(c->ds, &res, m, 2, 0); if(!g) violation("[refused] dax_group_add of a well-behaved module failed with %d", res); timed("dax_group_add", t0); }
    int n = 0;
    while(!*over || n < 12) { n++;
        switch(choose(st, 9)) {
        case 0: { for(auto &x : v) x = (int32_t)choose64(st); G(dax_tag_write(c->ds, h, v), "dax_tag_write"); wrote++; break; }
        case 1: { int32_t r[8]; G(dax_tag_read(c->ds, h, r), "dax_tag_read"); if(memcmp(r, v, 32)) violation("[corrupt] a tag of a well-behaved module changed"); break; }
        case 2: { tag_handle e = h; int k = choose(st, 8); e.byte = k * 4; e.count = 1; e.size = 4; int32_t a = choose(st, 1000); G(dax_atomic_op(c->ds, e, &a, ATOMIC_OP_INC), "dax_atomic_op"); v[k] = (int32_t)((uint32_t)v[k] + a); wrote++; break; }
        case 3: { bits[0] = choose(st, 256); bits[1] = choose(st, 256); bits[2] = choose(st, 16); G(dax_tag_write(c->ds, b, bits), "dax_tag_write"); break; }
        case 4: { uint8_t r[3]; G(dax_tag_read(c->ds, b, r), "dax_tag_read"); r[2] &= 15; if(memcmp(r, bits, 3)) violation("[corrupt] a bit tag of a well-behaved module changed"); break; }
        case 5: { int16_t x = choose(st, 65536); G(dax_tag_write(c->ds, q, &x), "dax_tag_write"); qq.push_back(x); break; }
        case 6: { if(qq.empty()) break; int16_t x; G(dax_tag_read(c->ds, q, &x), "dax_tag_read"); if(x != qq.front()) violation("[corrupt] a queue of a well-behaved module lost its order"); qq.pop_front(); break; }
        case 7: { dax_tag t; usec t0 = now; std::string s = nm + (choose(st, 2) ? "" : "b"); (void)t0; G(dax_tag_byname(c->ds, &t, (char *)s.c_str()), "dax_tag_byname"); if(t.idx != (s == nm ? h.index : b.index)) violation("[corrupt] tag %s has index %d", s.c_str(), t.idx); break; }
        case 8: { uint8_t r[40]; G(dax_group_read(c->ds, g, r, 35), "dax_group_read"); r[34] &= 15; if(memcmp(r, v, 32) || memcmp(r + 32, bits, 3)) violation("[corrupt] a group of a well-behaved module returned something else"); break; }
        }
        if(choose(st, 3) == 0) sleep_us(choose(st, 20000));
        while(dax_event_poll(c->ds, nullptr) == 0);
    }
    usec t0 = now; while(fired_[id] < wrote && wrote - fired_[id] <= 4 && now < t0 + bound_us) { dax_event_wait(c->ds, 500, nullptr); }
    if(fired_[id] > wrote) violation("[event] a well-behaved module got %d notifications for %d writes", fired_[id], wrote);
    G(dax_disconnect(c->ds), "dax_disconnect"); dax_free(c->ds); nontrivial();
}
}
static void c15_hostile() {
    world_init(); swarm_net(); cfg.p_stall = 0; prot.clear(); protq.clear(); hconn.clear(); on_read = hostile_read; on_new_wire = [](Wire *w) { w->raw = true; };
    mark_root(spawn("ctl", [] {
        Proc *sv = start_server(); int ng = 1 + choose(ST_CFG, 2), nh = 1 + choose(ST_CFG, 5); bool *over = new bool(false); bound_us = (4 + nh * 2) * 1000000LL; bool stalls = choose(ST_CFG, 3) == 2;
        if(choose(ST_CFG, 6) == 5) sv->maxfds = 6 + ng + choose(ST_CFG, 4);
        std::vector<Client *> gs; for(int i = 0; i < ng; i++) gs.push_back(spawn_client(i, "good" + std::to_string(i), [over](Client *c) { good(c, over); }));
        wait_until([=] { return (int)prot.size() == 3 * ng; }, 60 * 1000000LL, "good modules");
        std::vector<Proc *> hs;
        for(int i = 0; i < nh; i++) { int st = ST_ACTOR0 + 10 + i; hs.push_back(spawn("hostile" + std::to_string(i), [st, stalls] {
            cur->proc->noeintr = true; Hostile H; H.st = st; int rounds = 0;
            while(more(st, 0.25) && rounds++ < 8) {
                std::vector<Raw *> open; int style = choose(st, stalls ? 7 : 6), nc = style == 5 ? 1 + choose(st, 12) : 1;
                for(int k = 0; k < nc; k++) { Raw *r = new Raw; if(!r->open(choose(st, 3) == 0)) { delete r; break; } struct timeval tv = {3, 0}; sim_setsockopt(r->fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv); open.push_back(r); hconn[r->w->c]; }
                for(auto r : open) {
                    if(choose(st, 2)) { B b; b.be32(1000).be32(1).str("bad" + std::to_string(st)); Bytes f = enc(C_REG, b.v); r->send(f.data(), f.size()); }
                    // own tags to play with
                    if(choose(st, 2)) for(int k = 0; k < 2; k++) { static const uint32_t ty[] = {DAX_INT, DAX_BOOL, DAX_DINT, DAX_QUEUE | DAX_INT, DAX_LREAL}; B b; b.u32(ty[choose(st, 5)]).u32(1 + choose(st, 12)).u32(0).str("a" + std::to_string(choose(st, 12))); Bytes f = enc(C_ADD, b.v); r->send(f.data(), f.size()); Frame a; if(r->recv(a, 200000) && !(a.cmd & RERR) && a.d.size() == 4) { int x; memcpy(&x, a.d.data(), 4); H.own.push_back(x); } }
                    int nf = 1 + choose(st, 16);
                    for(int k = 0; k < nf && !r->closed; k++) { fired(F_GARBAGE); count("hostile frames");
                        if(style == 0) { Bytes x = H.rnd(1 + choose(st, 200)); r->send(x.data(), x.size()); }
                        else if(style == 1) { Bytes f = H.frame(); size_t p = choose(st, f.size() + 1); r->send(f.data(), p); if(choose(st, 4) == 0) break; sleep_us(choose(st, 2000)); r->send(f.data() + p, f.size() - p); }
                        else if(style == 6) { Bytes f = choose(st, 2) ? H.frame() : enc(C_READ, B().u32(2).u32(0).u32(47).v); r->send(f.data(), f.size()); }
                        else { Bytes f = H.frame(); r->send(f.data(), f.size()); }
                        if(style == 3) { Frame a; r->recv(a, 1000 * choose(st, 20)); }
                        if(style == 4 && choose(st, 4) == 0) { conn_reset(r->w->c); fired(F_CONNRESET); r->closed = true; }
                    }
                    if(style == 6) { for(int k = 0; k < 150 && !r->closed; k++) { Bytes f = enc(C_READ, B().u32(2).u32(0).u32(47).v); r->send(f.data(), f.size()); } fired(F_STALL); count("connections that never read"); sleep_us(choose(st, 3000000)); }
                }
                if(choose(st, 3) == 0) sleep_us(choose(st, 1500000));
                for(auto r : open) { if(choose(st, 8)) r->close(); }
                H.own.resize(std::min<size_t>(H.own.size(), 10));
            } count("hostile actors done"); })); }
        bool ok = wait_until([=] { for(auto p : hs) if(p->alive && !p->main->done) return false; return true; }, (sv->maxfds < 1000 ? 30 : 900) * 1000000LL, "hostile modules"); if(!ok && sv->maxfds >= 1000) violation("[no-progress] the hostile connections do not end");
        for(auto p : hs) if(p->alive) kill_proc(p, true, 137, "end of the hostile module");
        *over = true; if(sv->maxfds < 1000) sv->maxfds = 1000; wait_clients(gs, 600 * 1000000LL, "well-behaved modules");
        if(!sv->alive) violation("[server-exit] the tag server ended: %s", sv->death.c_str());
        if(!wait_until([=] { for(auto k : conns) if(k->accepted && !wire_of(k)->srv_closed) return false; return true; }, 10 * 1000000LL, "server notices")) violation("[still-there] the server kept a connection for 10 s after its module was gone");
        bool *o2 = new bool(true); Client *l = spawn_client(9, "late", [o2](Client *c) { good(c, o2); }); wait_clients({l}, 60 * 1000000LL, "a later module");
    })->main);
    run_loop();
}
SCENARIO("C15", "hostile connections", 3, c15_hostile, REALC, STUBC)
static void c15_memory() {
    world_init(); model_attach(); swarm_net(); cfg.p_stall = 0;
    mark_root(spawn("ctl", [] {
        Proc *sv = start_server(); int n = 1 + choose(ST_CFG, 3); static const double pr[] = {0.002, 0.02, 0.1, 0.4}; double p = pr[choose(ST_CFG, 4)]; std::vector<std::string> names = {"Alpha", "beta", "Gamma", "d", "e5", "f6", "g7"}; bool *calm = new bool(false);
        std::vector<Client *> cs; int *ready = new int(0);
        for(int i = 0; i < n; i++) cs.push_back(run_client(i, "mod" + std::to_string(i), [=](Client *c) {
            Gen g(c); g.names = names; g.queues = true; g.owned = true; g.retain = choose(ST_CFG, 2); g.p_bigcount = 0.05; for(double &x : g.w) x = 1; g.w[W_CDT] = g.w[W_SYSWRITE] = g.w[W_MODTAG] = 0; g.w[W_WRITE] = 4; g.w[W_READ] = 3; g.w[W_ADD] = 3; g.w[W_EADD] = 2; g.op(W_ADD); (*ready)++;
            int k = 0; while(!*calm && k++ < 100 && more(c->stream, 0.02)) g.step();
            wait_until([=] { return *calm; }, -1, "calm"); audit(c); for(int k = 0; k < 25; k++) g.step(); nontrivial(); }));
        wait_until([=] { return *ready == n; }, 60 * 1000000LL, "modules"); M.allow_errors = M.ret_unsure = true; cfg.p_allocfail = p; sv->allocfail = true;
        sleep_us(1000 + choose(ST_FAULT, 60000)); sv->allocfail = false; cfg.p_allocfail = 0; wait_until([=] { return true; }, 1000, "settle"); sleep_us(20000); M.allow_errors = false; *calm = true;
        wait_clients(cs, 300 * 1000000LL, "the operations"); if(!sv->alive) violation("[server-exit] the tag server ended: %s", sv->death.c_str());
    })->main);
    run_loop();
}
SCENARIO("C15", "memory running out", 1, c15_memory, REALC, STUBC)
