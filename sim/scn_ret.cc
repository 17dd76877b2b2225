// C08: the server is stopped, killed or loses power at any point (also inside any disk operation), the disk fails, and the
// server is started again and again. What it has after every start is compared with what it had acknowledged.
#include "rawgen.h"
#include "runout.h"
#include <csignal>
#include <algorithm>
static const char *REALC = "tag server (all of src/server), client library (src/lib), SQLite";
static const char *STUBC = "the disk is a simulated SQLite VFS with volatile and durable content; sockets, threads, clocks and signals are simulated; modules are scripted";
namespace {
typedef std::string State; // "" = not there
typedef std::map<std::string, std::set<State>> Adm;
std::string tytext(uint32_t t) { // the type with everything it is made of
    if(!(t & DAX_CUSTOM)) return M.typestr(t);
    for(auto &m : M.types) if(m.id == t) { std::string s = m.name + "{"; for(auto &x : m.m) s += x.name + ":" + tytext(x.type) + "*" + std::to_string(x.count) + ";"; return s + "}"; }
    return "?";
}
State enc_state(uint32_t type, uint32_t count, const Bytes &d) { return tytext(type) + "[" + std::to_string(count) + "]=" + std::string(d.begin(), d.end()); }
std::string show(const State &s) { if(s.empty()) return "nothing"; size_t p = s.find("]="); return s.substr(0, p + 1) + " " + hex(Bytes(s.begin() + p + 2, s.end())); }
struct Epochs {
    Adm adm;             // what the file may hold for a name; a name that is missing may only be absent
    Adm hist; bool errors = false; bool phaseb = false; std::set<std::string> sure, seen;
    std::map<std::string, State> current() { std::map<std::string, State> m; for(auto &t : M.db) if(t.exists && (t.attr & TAG_ATTR_RETAIN) && !t.queue) m[t.name] = enc_state(t.type, t.count, t.data); return m; }
    void note() { auto m = current(); for(auto &x : m) seen.insert(x.first); for(auto &n : seen) { auto it = m.find(n); if(!hist.count(n)) hist[n].insert(""); hist[n].insert(it == m.end() ? "" : it->second); } }
    void begin() { errors = phaseb = false; hist = adm; for(auto &x : hist) { if(x.second.empty()) x.second.insert(""); } seen.clear(); sure.clear(); for(auto &x : adm) seen.insert(x.first); note(); }
    typedef std::vector<std::map<std::string, State>> Vars;
    void after(Wire *w, const Frame &q, Vars &v) { // what there would be while and after q is executed
        if(q.cmd != C_ADD && q.cmd != C_DEL && q.cmd != C_WRITE && q.cmd != C_MWRITE && q.cmd != C_ATOMIC && q.cmd != C_GWRITE) return;
        auto run = [&](const Frame &f, MGroup *g, uint32_t gid) { Model keep = M; if(g) M.mods[w].groups[gid] = *g; M.dry = true; Frame r; r.cmd = f.cmd | RSP; int i = M.db.size(); if(f.cmd == C_ADD && f.d.size() > 12) { int e = M.find(std::string((const char *)f.d.data() + 12, strnlen((const char *)f.d.data() + 12, f.d.size() - 12))); if(e >= 0) i = e; } r.d = B().u32(i).v; M.apply(w, f, r); v.push_back(current()); M = keep; };
        if(q.cmd == C_GWRITE && q.d.size() >= 4) { // the members are written one after another
            uint32_t id; memcpy(&id, q.d.data(), 4); auto &gs = M.mods[w].groups; auto it = gs.find(id); if(it == gs.end()) return;
            MGroup full = it->second; for(auto &h : full.m) if(M.may_write(w, h.index, h.byte, h.size, false)) return;
            for(size_t k = 1; k <= full.m.size(); k++) { MGroup g = full; g.m.resize(k); g.size = 0; for(auto &h : g.m) g.size += h.size; run(q, &g, id); } return; }
        run(q, nullptr, 0); }
    Vars variants() { // with any request that may just be executed
        Vars v; v.push_back(current()); for(auto c : conns) { Wire *w = wire_of(c); if(!w || w->raw || w->reqs.empty() || w->srv_closed) continue; Frame q = w->reqs.front().f; after(w, q, v); } return v; }
    void end() { // the server is about to be gone: what may the file hold now?
        auto vs = variants(); Adm a; std::set<std::string> names = seen; for(auto &v : vs) for(auto &x : v) names.insert(x.first); for(auto &x : hist) names.insert(x.first);
        for(auto &n : names) { for(auto &v : vs) { auto it = v.find(n); a[n].insert(it == v.end() ? "" : it->second); } if(errors && !sure.count(n)) for(auto &s : hist[n]) a[n].insert(s); }
        adm = a; trace("expecting %zu retained tags%s", vs[0].size(), errors ? " (disk errors)" : ""); }
};
struct Seen { std::string name; uint32_t type, count; uint16_t attr; Bytes data; int idx; };
uint32_t rd(const Bytes &b, size_t o) { uint32_t x = 0; if(o + 4 <= b.size()) memcpy(&x, &b[o], 4); return x; }
bool ask(Raw &r, uint32_t cmd, const Bytes &d, Frame &f) { auto v = enc(cmd, d); r.send(v.data(), v.size()); if(!r.recv(f, 10 * 1000000LL)) violation("[no-answer] the restarted server did not answer"); return !(f.cmd & RERR); }
// what a fresh server holds; loads the model with it
std::vector<Seen> observe() {
    std::vector<Seen> *out = new std::vector<Seen>; bool *done = new bool(false);
    Proc *p = spawn("observer", [=] {
        on_new_wire = [](Wire *w) { if(cur->proc->name == "observer") w->raw = true; };
        Raw r; if(!r.open()) violation("[start] the server does not accept connections"); r.w->raw = true; Frame f;
        M.reset();
        for(int k = M.types.size(); k < 200; k++) { if(!ask(r, C_CDTGET, B().u8(2).u32(DAX_CUSTOM | k).v, f)) break; std::string s((const char *)f.d.data() + 4, strnlen((const char *)f.d.data() + 4, f.d.size() - 4));
            Frame q, a; q.cmd = C_CDT; q.d.assign(s.begin(), s.end()); q.d.push_back(0); a.cmd = C_CDT | RSP; a.d = B().u32(DAX_CUSTOM | k).v; M.apply(r.w, q, a); }
        Frame ft; ask(r, C_READ, B().u32(1).u32(0).u32(4).v, ft); int last = (int)rd(ft.d, 0); if(last < 10 || last > 500) violation("[lastindex] after a restart _lastindex is %d", last);
        for(int i = 11; i <= last; i++) {
            if(!ask(r, C_GET, B().u8(2).u32(i).v, f)) violation("[hole] after a restart index %d of %d is not a tag", i, last);
            Seen s; s.idx = i; s.type = rd(f.d, 4); s.count = rd(f.d, 8); memcpy(&s.attr, &f.d[12], 2); s.name = std::string((const char *)&f.d[14], strnlen((const char *)&f.d[14], f.d.size() - 14));
            if(!M.typeok(s.type)) violation("[type] after a restart tag %s has the unknown type 0x%x", s.name.c_str(), s.type);
            uint32_t n = M.tagbytes(s.type, s.count); for(uint32_t o = 0; o < n; o += 4000) { if(!ask(r, C_READ, B().u32(i).u32(o).u32(std::min<uint32_t>(4000, n - o)).v, f)) violation("[read] after a restart tag %s cannot be read", s.name.c_str()); s.data.insert(s.data.end(), f.d.begin(), f.d.end()); }
            if(!ask(r, C_GET, B().u8(1).str(s.name).v, f) || (int)rd(f.d, 0) != i) violation("[lookup] after a restart tag %s (index %d) is not found by its name", s.name.c_str(), i);
            out->push_back(s);
        }
        for(auto &s : *out) { int i = M.addtag(s.name, s.type, s.count, TAG_ATTR_RETAIN, nullptr); M.db[i].data = s.data; if(i != s.idx) violation("[index] after a restart tag %s has index %d", s.name.c_str(), s.idx); }
        r.close(); *done = true; });
    if(!wait_until([=] { return *done || !server->alive; }, 60 * 1000000LL, "observer")) violation("[no-answer] the restarted server does not answer");
    if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str());
    (void)p; M.exp.clear(); M.got.clear(); M.mods.clear(); return *out;
}
void mixset(Gen &g) { g.retain = true; g.p_bad = 0.03; g.maxcount = 20; g.w[W_ADD] = 2; g.w[W_WRITE] = 8; g.w[W_MASK] = 3; g.w[W_RWRITE] = 2; g.w[W_RMASK] = 1; g.w[W_ATOMIC] = 3; g.w[W_DEL] = 0.6; g.w[W_GADD] = 0.7; g.w[W_GWRITE] = 2; g.w[W_MADD] = 0.6; g.w[W_MDEL] = 0.2; g.w[W_READ] = 1; g.w[W_LOOKUP] = 0.7; g.w[W_OADD] = 0.3; g.w[W_OSET] = 0.3; g.w[W_EADD] = 0.2; g.w[W_SLEEP] = 0.3; }
}
static void c08_run(bool faults) {
    world_init(); model_attach(); swarm_net(0.5); cfg.p_stall = 0; diskcfg = DiskCfg();
    mark_root(spawn("ctl", [faults] {
        Epochs *E = new Epochs; std::vector<std::string> names = {"Alpha", "beta", "Gamma", "d", "e5", "Name_with_32_characters_in_it_XYZ"}; bool big = choose(ST_CFG, 4) == 3; int cid = 0; bool over = false;
        on_answer = [E](Wire *w, const Frame &rq, const Frame &rsp) { E->note(); if(E->phaseb && !(rsp.cmd & RERR) && (rq.cmd == C_WRITE || rq.cmd == C_MWRITE || rq.cmd == C_ATOMIC)) { int i = (int)rd(rq.d, 0); if(i >= 0 && i < (int)M.db.size() && M.db[i].exists && (M.db[i].attr & TAG_ATTR_RETAIN)) E->sure.insert(M.db[i].name); } };
        model_hook = [E](Wire *w, const Frame &rq, const Frame &rsp) { if(E->errors && rq.cmd == C_GWRITE) { Epochs::Vars v; E->after(w, rq, v); for(auto &m : v) for(auto &x : m) E->hist[x.first].insert(x.second); } M.apply(w, rq, rsp); };
        int epochs = 2 + choose(ST_FAULT, 6);
        for(int e = 0; e <= epochs && !over; e++) {
            bool last = e == epochs; bool starterr = faults && !last && choose(ST_FAULT, 6) == 5;
            bool crashstart = !last && choose(ST_FAULT, 5) == 4; static const double pr[] = {0.01, 0.05, 0.3, 1}; double pe = pr[choose(ST_FAULT, 4)]; int kind = choose(ST_FAULT, 4);
            auto seterr = [&](bool on) { diskcfg = DiskCfg(); if(!on) return; if(kind == 0) diskcfg.p_err = pe; else if(kind == 1) diskcfg.p_full = pe; else if(kind == 2) { diskcfg.p_err = pe; diskcfg.p_short = 0.5; } else { diskcfg.p_err = pe / 2; diskcfg.p_full = pe / 2; } };
            bool power = choose(ST_FAULT, 2); Proc *sv; bool *dead = new bool(false);
            M.ret_unsure = starterr; if(starterr) seterr(true);
            if(crashstart) { // the server dies inside a disk operation of its start
                int n = 1 + choose(ST_FAULT, 60); server = nullptr; disk_arm_crash(n, [dead, power] { *dead = true; fired(F_SERVERCRASH); if(power) disk_power_loss(); else disk_process_crash(); kill_proc(cur->proc, true, 137, "crash injected"); }); }
            sv = start_server({}, false);
            bool up = wait_until([=] { return listening(std::string("unix:") + SRV_SOCK) || !sv->alive; }, 60 * 1000000LL, "server start");
            disk_process_crash(); // (no crash point is left over)
            seterr(false);
            if(!sv->alive) { if(!*dead) violation("[start] the tag server ended at its start: %s", sv->death.c_str()); count("crashes while starting"); nontrivial(); continue; } // the file must not have changed
            if(!up) violation("[start] the tag server did not start");
            // what has it got?
            auto got = observe(); std::map<std::string, State> have;
            for(auto &s : got) { if(have.count(s.name)) violation("[twice] tag %s is there twice after a restart", s.name.c_str()); if(!(s.attr & TAG_ATTR_RETAIN) && !starterr) violation("[attribute] tag %s came back without its retain attribute", s.name.c_str()); have[s.name] = enc_state(s.type, s.count, s.data); }
            std::set<std::string> all; for(auto &x : have) all.insert(x.first); for(auto &x : E->adm) all.insert(x.first);
            for(auto &n : all) { State h = have.count(n) ? have[n] : ""; std::set<State> ok; auto it = E->adm.find(n); if(it != E->adm.end()) ok = it->second; else ok.insert(""); if(starterr) ok.insert("");
                if(!ok.count(h)) { std::string w; for(auto &s : ok) w += (w.empty() ? "" : " or ") + show(s); violation("[retained] after the restart tag %s holds %s, it should hold %s", n.c_str(), show(h).c_str(), w.c_str()); } if(h.size()) count("retained tag checked"); }
            if(!starterr) { E->adm.clear(); for(auto &x : have) E->adm[x.first] = {x.second}; } else for(auto &n : all) { if(E->adm[n].empty()) E->adm[n].insert(""); }
            if(last) break;
            E->begin(); E->errors = starterr; trace("epoch %d: %zu retained tags", e, got.size());
            bool runerr = faults && !starterr && choose(ST_FAULT, 2); if(runerr) { E->errors = true; M.ret_unsure = true; seterr(true); }
            // modules at work
            int nc = choose(ST_FAULT, 6) == 5 ? 0 : 1 + choose(ST_FAULT, 3); std::vector<Client *> cs; bool *stop = new bool(false); double len = std::initializer_list<double>{0.05, 0.02, 0.15}.begin()[choose(ST_CFG, 3)];
            auto work = [&](double pstop) { for(int i = 0; i < nc; i++) { int id = cid++ % 40; Client *c = spawn_client(id, "mod" + std::to_string(i), [=](Client *c) {
                c->neterr = true; if(c->connect(20000)) return; Gen g(c); g.names = names; mixset(g); g.pstop = pstop; if(big) g.p_bigcount = 0.2;
                if(choose(c->stream, 2)) { uint32_t t = api_cdt(c, "Pair", {{"a", DAX_INT, 2}, {"b", DAX_BOOL, 3}, {"c", DAX_DINT, 1}}); if(t) { uint32_t u = api_cdt(c, "Nest", {{"p", t, 2}, {"f", DAX_BOOL, 1}}); g.types = {t, DAX_INT, DAX_DINT, DAX_BOOL}; if(u) g.types.push_back(u); } }
                for(int k = 0; k < 2 && c->proc->alive; k++) g.op(W_ADD);
                int n = 0; while(!*stop && n++ < 120 && more(c->stream, g.pstop)) { g.step(); if(c->wire->srv_closed || (server && !server->alive)) break; }
                if(server && server->alive) dax_disconnect(c->ds); }); cs.push_back(c); } };
            auto finished = [&] { return std::all_of(cs.begin(), cs.end(), [](Client *c) { return !c->proc->alive || c->proc->main->done; }); };
            int how = choose(ST_FAULT, 4); if(runerr && how == 3) how = 0; // 0: after the work, 1: at a time, 2: in a disk op, 3: politely
            if(how == 2) disk_arm_crash(1 + choose(ST_FAULT, choose(ST_FAULT, 2) ? 12 : 300), [=] { *dead = true; fired(F_SERVERCRASH); E->end(); if(power) disk_power_loss(); else disk_process_crash(); kill_proc(sv, true, 137, "crash injected"); });
            work(len);
            auto crash = [&] { if(*dead) return; *dead = true; fired(F_SERVERCRASH); E->end(); if(power) disk_power_loss(); else disk_process_crash(); kill_proc(sv, true, 137, "crash injected"); };
            if(how == 1) { sleep_us(choose(ST_FAULT, 40000)); crash(); }
            if(how == 3 && choose(ST_FAULT, 2)) { sleep_us(choose(ST_FAULT, 40000)); E->end(); deliver_signal(sv, SIGTERM); *stop = true; }
            if(!wait_until(finished, 300 * 1000000LL, "modules")) violation("[no-progress] a module did not finish");
            if(runerr && !*dead && sv->alive && choose(ST_FAULT, 2)) { // the disk works again: from here on what is acknowledged is durable
                seterr(false); bool *d = new bool(false); spawn("observer", [=] { Raw r; on_new_wire = [](Wire *w) { if(cur->proc->name == "observer") w->raw = true; }; if(!r.open()) violation("[start] the server does not accept connections"); r.w->raw = true; Frame f;
                    for(int i = 11; i < (int)M.db.size(); i++) if(M.db[i].exists && ask(r, C_GET, B().u8(2).u32(i).v, f)) { uint16_t at; memcpy(&at, &f.d[12], 2); if(at & TAG_ATTR_RETAIN) M.db[i].attr |= TAG_ATTR_RETAIN; else M.db[i].attr &= ~TAG_ATTR_RETAIN; } r.close(); *d = true; });
                if(!wait_until([=] { return *d; }, 60 * 1000000LL, "observer")) violation("[no-answer] the server does not answer"); E->note(); E->phaseb = true; count("disk healed"); cs.clear(); work(0.04); if(!wait_until(finished, 300 * 1000000LL, "modules")) violation("[no-progress] a module did not finish"); }
            seterr(false);
            if(sv->alive && how != 3) crash();
            if(how == 3 && sv->alive) { if(!*stop) { E->end(); deliver_signal(sv, SIGTERM); } if(!wait_until([=] { return !sv->alive; }, 60 * 1000000LL, "the server's end")) violation("[no-stop] the server did not stop after SIGTERM"); count("polite stops"); if(power) disk_power_loss(); }
            if(!*dead && how != 3) violation("[server-exit] the tag server ended: %s", sv->death.c_str());
            disk_process_crash(); for(auto c : cs) if(c->proc->alive) kill_proc(c->proc, true, 0, "end of epoch"); nontrivial(); count("restarts");
        }
    })->main);
    run_loop();
}
static void c08_crash() { c08_run(false); }
static void c08_disk() { c08_run(true); }
SCENARIO("C08", "crashes, power loss and restarts", 3, c08_crash, REALC, STUBC)
SCENARIO("C08", "failing disk and restarts", 1, c08_disk, REALC, STUBC)
