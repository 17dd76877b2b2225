// Requests made by hand: every parameter of the commands is chosen freely, valid or not, and several connections keep
// several requests under way. The reference model decides every answer and notification.
#include "rawgen.h"
#include <algorithm>
static const char *REALC = "tag server (all of src/server), SQLite, Lua";
static const char *STUBC = "sockets, clocks, signals and disk are simulated; the requests are made by hand-written connections";
namespace {
enum { K_BASIC, K_GROUP, K_EVENT, K_MAP, K_OVR, K_ATOMIC, K_N };
const uint32_t types[] = {DAX_BOOL, DAX_BYTE, DAX_SINT, DAX_WORD, DAX_INT, DAX_UINT, DAX_DWORD, DAX_DINT, DAX_UDINT, DAX_LINT, DAX_LWORD, DAX_ULINT};
struct Rich {
    RawGen g; RawClient *c; double w[K_N] = {3, 0, 0, 0, 0, 0}; double bad = 0.2; bool disjoint = false; int maxev = 6;
    uint32_t R(uint32_t n) { return choose(g.stream, n); } bool P(double p) { return flip(g.stream, p); }
    std::vector<int> tags() { std::vector<int> v; for(int i = 0; i < (int)M.db.size(); i++) if(M.db[i].exists && M.db[i].name[0] != '_' && !M.db[i].queue) v.push_back(i); return v; }
    int oddidx() { static const int o[] = {-1, 1000, 0x7fffffff, (int)0x80000000}; int k = R(5); return k < 4 ? o[k] : (int)M.db.size(); }
    // a range of a tag; wrong in one place if asked for
    tag_handle range(int idx, bool wrong, uint32_t maxsize) {
        MTag &t = M.db[idx]; uint32_t sz = t.data.size(), ty = P(0.6) ? t.type : P(0.5) ? DAX_BOOL : types[R(12)]; if(ty & DAX_CUSTOM) ty = DAX_BYTE; tag_handle h;
        if(ty == DAX_BOOL) { uint32_t bits = t.type == DAX_BOOL ? t.count : sz * 8, f = P(0.3) ? 0 : R(bits), n = 1 + R(std::min<uint32_t>(bits - f, P(0.8) ? 40 : maxsize * 8 - 8)); h = H(idx, f / 8, f % 8, n, boolbytes(f % 8, n), ty); }
        else { uint32_t ts = M.typesize(ty); if(ts > sz) { ty = DAX_BYTE; ts = 1; } uint32_t n = sz / ts, f = P(0.4) ? 0 : R(n), k = P(0.3) ? n - f : 1 + R(n - f); if(k * ts > maxsize) k = std::max<uint32_t>(1, maxsize / ts); h = H(idx, f * ts, 0, k, k * ts, ty); if(P(0.1) && h.byte + h.size < sz) h.byte++; }
        if(wrong) switch(R(7)) { case 0: h.index = oddidx(); break; case 1: h.byte += sz - h.size + 1 + R(20); break; case 2: h.byte = P(0.5) ? 0xffffffff - R(20) : 0x7ffffff0 + R(40); break; case 3: h.bit = 8 + R(248); break; case 4: h.count += 1 + R(100); break; case 5: h.size += 1 + R(20); break; case 6: if(h.size > 1) h.size--; break; }
        return h; }
    static B &hb(B &b, const tag_handle &h) { return b.u32(h.index).u32(h.byte).u8(h.bit).u32(h.count).u32(h.size).u32(h.type); }
    bool frame(uint32_t &cmd, Bytes &d) {
        double tot = 0; for(double x : w) tot += x; double r = (choose(g.stream, 1 << 20) + 0.5) / (1 << 20) * tot; int k = 0; while(k < K_N - 1 && (r -= w[k]) > 0) k++;
        auto v = tags(); if(v.size() < 3) k = K_BASIC; if(k == K_BASIC) return g.frame(cmd, d);
        bool wrong = P(bad); int idx = v[R(v.size())]; B b; Wire *wi = wire_of_proc(c->p);
        switch(k) {
        case K_GROUP: {
            auto &gs = M.mods[wi].groups; std::vector<uint32_t> ids; for(auto &x : gs) ids.push_back(x.first);
            uint32_t id = ids.empty() || P(0.15) ? (P(0.7) ? R(14) : P(0.5) ? 0xffffffff - R(3) : 256 + R(5000)) : ids[R(ids.size())]; int what = R(10); if(ids.size() > 12 && what < 3) what = 3;
            if(what < 3) { cmd = C_GADD; uint32_t n = 1 + R(P(0.2) ? 150 : 6), big = P(0.3) ? 1500 : 60; if(wrong && P(0.1)) n = 151 + R(40); b.u8(n).u8(R(2)); for(uint32_t i = 0; i < n; i++) hb(b, range(v[R(v.size())], wrong && R(n) == 0, big)); }
            else if(what == 3) { cmd = C_GDEL; b.u32(id); }
            else if(what < 7) { cmd = C_GREAD; b.u32(id); }
            else { cmd = C_GWRITE; uint32_t n = gs.count(id) ? gs[id].size : R(40); if(wrong && n) n -= 1 + R(n); b.u32(id).vec(g.rnd(n)); } break; }
        case K_EVENT: {
            std::vector<dax_id> mine, all; for(auto i : v) for(auto &e : M.db[i].events) { all.push_back({i, e.id}); if(e.w == wi) mine.push_back({i, e.id}); }
            int what = R(10); if((int)mine.size() >= maxev && what < 5) what = 5; if(mine.empty() && what >= 5 && !wrong) what = 0;
            if(what < 5) { cmd = C_EADD; tag_handle h = range(idx, wrong && P(0.6), 200); uint32_t et = 1 + R(10); if(et == EVENT_READ || (wrong && P(0.2))) et = P(0.5) ? 1 : P(0.5) ? 11 + R(300) : 0; if(!wrong && h.type == DAX_BOOL && et >= EVENT_EQUAL && et <= EVENT_DEADBAND) et = EVENT_CHANGE; if(!wrong && h.type != DAX_BOOL && (et == EVENT_SET || et == EVENT_RESET)) et = EVENT_WRITE; if(et == EVENT_READ) et = 0; b.u32(h.index).u32(h.byte).u32(h.count).u32(h.type).u32(et).u32(h.size).u8(h.bit); Bytes x = g.rnd(16); if(P(0.5)) for(int i = 1; i < 16; i++) x[i] = 0; b.vec(x); }
            else { dax_id id = mine.empty() || wrong ? (all.empty() || P(0.4) ? dax_id{P(0.3) ? oddidx() : idx, (int)R(20)} : all[R(all.size())]) : mine[R(mine.size())]; if(what < 8) { cmd = C_EOPT; b.u32(id.index).u32(id.id).u32(R(2)); } else { cmd = C_EDEL; b.u32(id.index).u32(id.id); } } break; }
        case K_MAP: {
            int what = R(10); int s = v[R(v.size())]; std::vector<std::pair<int, int>> all; for(auto i : v) for(auto &m : M.db[i].maps) all.push_back({i, m.id});
            if(what < 7) { // the destination of a map is never the source of another one and no two maps have the same destination bits: slot k of tag t always comes from the same bits of the tag before it
                cmd = C_MADD; if(wrong) { tag_handle a = range(idx, P(0.7), 100), z = range(s, false, 100); uint32_t nb = a.type == DAX_BOOL ? a.count : a.size * 8, mb = z.type == DAX_BOOL ? z.count : z.size * 8; bool oddr = a.index != idx || (uint64_t)a.byte + a.size > M.db[idx].data.size() || a.bit > 7; if(!oddr && nb <= mb) { z.index = oddidx(); } hb(b, a); hb(b, z); break; }
                int t = s | 1; s = t - 1; auto have = [&](int i) { return std::find(v.begin(), v.end(), i) != v.end(); }; if(!have(s) || !have(t)) return g.frame(cmd, d);
                uint32_t kk = R(6), hsh = (t * 2654435761u + kk * 40503u) >> 7, sz = M.db[s].data.size(), dz = M.db[t].data.size(), db = kk, n = 1; uint32_t sbit = hsh & 1 ? kk : (hsh >> 1) % (std::min<uint32_t>(sz, 2) * 8); if(kk == 5 && dz >= 4 && sz >= 4) { db = 8 + (hsh >> 6) % 8; n = 1 + (hsh >> 9) % 12; sbit = (hsh >> 3) % 16; }
                uint32_t lim = M.db[s].type == DAX_BOOL ? M.db[s].count : sz * 8, dlim = M.db[t].type == DAX_BOOL ? M.db[t].count : dz * 8; if(sbit + n > lim || db + n > dlim) return g.frame(cmd, d);
                hb(b, H(s, sbit / 8, sbit % 8, n, boolbytes(sbit % 8, n), DAX_BOOL)); hb(b, H(t, db / 8, db % 8, n, boolbytes(db % 8, n), DAX_BOOL)); }
            else { cmd = what < 9 ? C_MGET : C_MDEL; auto id = all.empty() || wrong ? std::pair<int, int>{P(0.3) ? oddidx() : idx, (int)R(12)} : all[R(all.size())]; b.u32(id.first).u32(id.second); } break; }
        case K_OVR: {
            tag_handle h = range(idx, wrong, 300); uint32_t n = std::min<uint32_t>(h.size, 1500); if(!n) n = 1;
            switch(R(8)) { case 0: case 1: cmd = C_OADD; b.u32(h.index).u32(h.byte).u32(n).vec(g.rnd(n)).vec(g.rnd(n)); break; case 2: cmd = C_ODEL; if(P(0.3)) { h.byte = 0; n = M.db[idx].data.size(); if(n > 4000) n = 1; b.u32(idx).u32(0).vec(Bytes(n, 0xff)); } else b.u32(h.index).u32(h.byte).vec(g.rnd(n)); break; case 3: case 4: cmd = C_OGET; b.u32(h.index).u32(h.byte).u32(n); break; default: cmd = C_OSET; b.u32(h.index).u8(R(3)); } break; }
        case K_ATOMIC: {
            tag_handle h = range(idx, wrong, 120); uint32_t op = wrong && P(0.2) ? (P(0.5) ? 0 : 10 + R(300)) : 1 + R(9); if(op <= 2 && !wrong) { if(h.type == DAX_BOOL) op = 3 + R(7); else { h.count = 1; h.size = M.typesize(h.type); } }
            cmd = C_ATOMIC; b.u32(h.index).u32(h.byte).u32(h.count).u32(h.type).u8(h.bit).u16(op).u16(0); b.v.resize(21); b.vec(g.rnd(std::min<uint32_t>(h.size, 3000))); break; }
        }
        d = b.v; return true; }
};
struct Mix { std::function<void(Rich &)> set; bool adds = true; };
void raw_run(const Mix &mx) {
    world_init(); model_attach(); swarm_net(); const Mix *m = new Mix(mx);
    mark_root(spawn("ctl", [m] {
        start_server(); std::vector<std::string> names; for(int i = 0; i < 8; i++) names.push_back("t" + std::to_string(i));
        int n = 1 + choose(ST_CFG, 4), burst = std::initializer_list<int>{1, 4, 16}.begin()[choose(ST_CFG, 3)]; double stop = std::initializer_list<double>{0.05, 0.15, 0.02}.begin()[choose(ST_CFG, 3)];
        std::vector<RawClient *> rs;
        for(int i = 0; i < n; i++) rs.push_back(spawn_raw(i, "raw" + std::to_string(i), [=](RawClient *c) {
            c->start_reader(); Rich g; g.c = c; g.g.stream = c->stream; g.g.names = names; g.g.queues = false; g.g.cdt = false; g.g.p_big = 0.05; m->set(g);
            if(choose(c->stream, 8) < 7 && !c->reg("rawmod" + std::to_string(c->id))) violation("[no-answer] the registration of raw client %d was not answered", c->id);
            for(int k = 0; k < 5; k++) { B b; static const uint32_t ty[] = {DAX_BOOL, DAX_BOOL, DAX_INT, DAX_BYTE, DAX_UDINT, DAX_LINT}; b.u32(ty[choose(c->stream, 6)]).u32(1 + choose(c->stream, choose(c->stream, 4) ? 40 : 800)).u32(0).str(names[choose(c->stream, 8)]); c->send_frames({enc(C_ADD, b.v)}, 0, 1); c->drain(10 * 1000000LL); }
            int rounds = 0;
            while(more(c->stream, stop) && rounds++ < 60) {
                std::vector<Bytes> fs; int k = 1 + choose(c->stream, burst); for(int j = 0; j < k; j++) { uint32_t cmd; Bytes d; g.frame(cmd, d); if(d.size() > 4088) continue; fs.push_back(enc(cmd, d)); }
                if(!c->send_frames(fs, 0.02, 20)) violation("[closed] the server closed the connection of raw client %d although all its requests have the right form", c->id);
                if(!c->drain(20 * 1000000LL)) violation("[no-answer] raw client %d: %zu complete requests were not answered within 20 s", c->id, c->sentcmds.size()); state(M.digest());
            }
            count("requests made by hand", c->nans); nontrivial(); c->stop = true; wait_until([c] { return c->rdone; }, -1, "reader"); c->raw.close();
        }));
        if(!wait_until([rs] { for(auto r : rs) if(!r->finished) return false; return true; }, 900 * 1000000LL, "raw clients")) violation("[no-progress] raw clients did not finish");
        if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str());
    })->main);
    run_loop();
}
void r04() { Mix m; m.set = [](Rich &g) { g.w[K_ATOMIC] = 6; }; raw_run(m); }
void r05() { Mix m; m.set = [](Rich &g) { g.w[K_BASIC] = 5; g.w[K_EVENT] = 3; g.w[K_ATOMIC] = 1; }; raw_run(m); }
void r09() { Mix m; m.set = [](Rich &g) { g.w[K_BASIC] = 5; g.w[K_MAP] = 4; g.w[K_ATOMIC] = 1; }; raw_run(m); }
void r10() { Mix m; m.set = [](Rich &g) { g.w[K_BASIC] = 4; g.w[K_OVR] = 5; }; raw_run(m); }
void r12() { Mix m; m.set = [](Rich &g) { g.w[K_BASIC] = 2; g.w[K_GROUP] = 6; }; raw_run(m); }
}
SCENARIO("C04", "atomic requests made by hand", 1, r04, REALC, STUBC)
SCENARIO("C05", "event requests made by hand", 1, r05, REALC, STUBC)
SCENARIO("C09", "map requests made by hand", 1, r09, REALC, STUBC)
SCENARIO("C10", "override requests made by hand", 1, r10, REALC, STUBC)
SCENARIO("C12", "group requests made by hand", 1, r12, REALC, STUBC)
