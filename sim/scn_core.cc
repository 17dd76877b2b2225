// Several modules use one tag server through the real library at the same time; every answer of the server and every
// result of the library is compared with the reference model in the order in which the server answered.
#include "api.h"
static const char *REALC = "tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, threads, clocks, signals, allocation failures and disk are simulated; modules are scripted";
struct Prof { int minc = 1, maxc = 4; int cdts = 0; std::function<void(Gen &)> set; double net = 1.0; int pre = 3; int cache = 0; bool longnames = false; };
static std::vector<std::string> tagnames(int n) { static const char *b[] = {"Alpha", "beta", "Gamma_1", "d", "Epsilon_long_name_0123456789_abcd", "Zeta9", "eta", "Theta", "iota", "K"}; std::vector<std::string> v; for(int i = 0; i < n; i++) v.push_back(i < 10 ? b[i] : "tag" + std::to_string(i)); for(auto &s : v) if(s.size() > 32) s.resize(32); return v; }
void mix_run(const Prof &pf) {
    world_init(); model_attach(); swarm_net(pf.net);
    const Prof *p = new Prof(pf);
    mark_root(spawn("ctl", [p] {
        start_server();
        int n = p->minc + choose(ST_CFG, p->maxc - p->minc + 1); bool tcp = false; (void)tcp;
        std::vector<Client *> cs; std::vector<std::string> names = tagnames(p->pre + 1 + choose(ST_CFG, 6)); if(p->longnames && choose(ST_CFG, 3) == 2) { int l = 30 + choose(ST_CFG, 3); for(size_t i = 0; i < names.size(); i++) if(i % 3) names[i] = std::string(l - 1, 'q') + (char)('A' + i); } // they differ in the last character only
        double len = std::initializer_list<double>{0.03, 0.1, 0.01}.begin()[choose(ST_CFG, 3)];
        for(int i = 0; i < n; i++) cs.push_back(run_client(i, "mod" + std::to_string(i), [p, names, len](Client *c) {
            Gen g(c); g.names = names; g.pstop = len; p->set(g);
            for(int k = 0; k < p->pre; k++) g.op(W_ADD);
            g.run(); nontrivial();
        }));
        wait_clients(cs, 600 * 1000000LL, "the operations");
        if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str());
    })->main);
    run_loop();
}
static void noro(Gen &g) { g.usable = [](int i) { return !(M.db[i].attr & TAG_ATTR_READONLY); }; }
// ---- C01
static void c01_mix() { Prof p; p.set = [](Gen &g) { g.w[W_READ] = 10; g.w[W_WRITE] = 8; g.w[W_MASK] = 5; g.w[W_RREAD] = 4; g.w[W_RWRITE] = 3; g.w[W_RMASK] = 3; g.w[W_ADD] = 1.5; g.w[W_DEL] = 0.15; g.w[W_SLEEP] = 0.5; }; mix_run(p); }
SCENARIO("C01", "shared memory", 3, c01_mix, REALC, STUBC)
static void c01_bool() { Prof p; p.set = [](Gen &g) { g.types = {DAX_BOOL}; g.maxcount = 70; g.w[W_READ] = 10; g.w[W_WRITE] = 10; g.w[W_MASK] = 6; g.w[W_RREAD] = 2; g.w[W_ADD] = 0.5; }; mix_run(p); }
SCENARIO("C01", "bit ranges", 2, c01_bool, REALC, STUBC)
static void c01_big() { Prof p; p.maxc = 3; p.set = [](Gen &g) { g.p_bigcount = 0.6; g.w[W_READ] = 4; g.w[W_WRITE] = 4; g.w[W_MASK] = 3; g.w[W_BIG] = 8; g.w[W_RREAD] = 3; g.w[W_RWRITE] = 3; g.w[W_RMASK] = 3; g.w[W_ADD] = 0.5; }; mix_run(p); }
SCENARIO("C01", "large tags", 1, c01_big, REALC, STUBC)
// ---- C04
static void c04_mix() { Prof p; p.set = [](Gen &g) { g.w[W_ATOMIC] = 12; g.w[W_READ] = 4; g.w[W_WRITE] = 3; g.w[W_MASK] = 1; g.w[W_ADD] = 0.7; g.p_bad = 0.08; }; mix_run(p); }
SCENARIO("C04", "atomics against a model", 3, c04_mix, REALC, STUBC)
// ---- C05
static void c05_mix() { Prof p; p.set = [](Gen &g) { g.w[W_EADD] = 6; g.w[W_EDEL] = 2; g.w[W_EOPT] = 1; g.w[W_WRITE] = 12; g.w[W_MASK] = 4; g.w[W_RWRITE] = 2; g.w[W_RMASK] = 1; g.w[W_ATOMIC] = 4; g.w[W_ADD] = 0.5; g.w[W_DEL] = 0.4; g.w[W_READ] = 1; }; mix_run(p); }
SCENARIO("C05", "events against a model", 3, c05_mix, REALC, STUBC)
static void c05_sys() { Prof p; p.set = [](Gen &g) { g.events_on_system = true; g.queues = true; g.w[W_EADD] = 6; g.w[W_EDEL] = 2; g.w[W_EOPT] = 1; g.w[W_WRITE] = 5; g.w[W_ADD] = 3; g.w[W_DEL] = 3; g.w[W_QWRITE] = 3; g.w[W_QREAD] = 2; g.w[W_MASK] = 2; }; mix_run(p); }
SCENARIO("C05", "events on deletion, queues and status tags", 1, c05_sys, REALC, STUBC)
// ---- C09
static void c09_mix() { Prof p; p.pre = 5; p.maxc = 3; p.set = [](Gen &g) { g.w[W_MADD] = 5; g.w[W_MDEL] = 1.5; g.w[W_MGET] = 1; g.w[W_WRITE] = 10; g.w[W_MASK] = 4; g.w[W_ATOMIC] = 4; g.w[W_RWRITE] = 2; g.w[W_READ] = 8; g.w[W_RREAD] = 4; g.w[W_ADD] = 0.3; g.w[W_DEL] = 0.3; }; mix_run(p); }
SCENARIO("C09", "maps against a model", 3, c09_mix, REALC, STUBC)
// ---- C10
static void c10_mix() { Prof p; p.set = [](Gen &g) { g.w[W_OADD] = 6; g.w[W_ODEL] = 3; g.w[W_OGET] = 4; g.w[W_OSET] = 5; g.w[W_OCLR] = 2; g.w[W_WRITE] = 6; g.w[W_MASK] = 2; g.w[W_ATOMIC] = 2; g.w[W_READ] = 10; g.w[W_RREAD] = 3; g.w[W_SYSREAD] = 2; g.w[W_ADD] = 0.6; g.w[W_DEL] = 0.3; }; mix_run(p); }
SCENARIO("C10", "overrides against a model", 3, c10_mix, REALC, STUBC)
// ---- C11
static void c11_mix() { Prof p; p.pre = 6; p.set = [](Gen &g) { g.queues = true; g.w[W_QWRITE] = 10; g.w[W_QREAD] = 8; g.w[W_ADD] = 0.5; g.w[W_DEL] = 0.2; g.w[W_LOOKUP] = 0.3; }; mix_run(p); }
SCENARIO("C11", "queues against a model", 3, c11_mix, REALC, STUBC)
// ---- C12
static void c12_mix() { Prof p; p.pre = 4; p.set = [](Gen &g) { g.owned = true; g.w[W_GADD] = 3; g.w[W_GDEL] = 1; g.w[W_GREAD] = 8; g.w[W_GWRITE] = 8; g.w[W_WRITE] = 4; g.w[W_READ] = 4; g.w[W_MASK] = 1; g.w[W_ADD] = 0.4; g.w[W_DEL] = 0.2; }; mix_run(p); }
SCENARIO("C12", "groups against a model", 3, c12_mix, REALC, STUBC)
static void c12_ev() { Prof p; p.pre = 4; p.set = [](Gen &g) { noro(g); g.w[W_GADD] = 3; g.w[W_GDEL] = 1; g.w[W_GREAD] = 5; g.w[W_GWRITE] = 8; g.w[W_WRITE] = 2; g.w[W_EADD] = 2; g.w[W_MADD] = 1; g.w[W_ADD] = 0.2; }; mix_run(p); }
SCENARIO("C12", "groups with events and maps", 2, c12_ev, REALC, STUBC)
// ---- C13
static void c13_mix() { Prof p; p.pre = 1; p.longnames = true; p.set = [](Gen &g) { g.p_bad = 0.15; g.maxcount = 40; g.w[W_ADD] = 8; g.w[W_DEL] = 4; g.w[W_LOOKUP] = 8; g.w[W_READ] = 4; g.w[W_WRITE] = 3; g.w[W_SYSREAD] = 4; g.owned = true; g.queues = flip(ST_CFG, 0.5); }; mix_run(p); }
SCENARIO("C13", "directory against a model", 3, c13_mix, REALC, STUBC)
// ---- C14
static void c14_mix() { Prof p; p.pre = 3; p.set = [](Gen &g) { g.owned = true; g.w[W_SYSWRITE] = 8; g.w[W_SYSREAD] = 4; g.w[W_MODTAG] = 1; g.w[W_WRITE] = 5; g.w[W_MASK] = 3; g.w[W_ATOMIC] = 3; g.w[W_GADD] = 1; g.w[W_GWRITE] = 2; g.w[W_MADD] = 1; g.w[W_RWRITE] = 2; g.w[W_RMASK] = 2; g.w[W_READ] = 4; g.w[W_ADD] = 2; g.w[W_DEL] = 2; }; mix_run(p); }
SCENARIO("C14", "protected tags against a model", 3, c14_mix, REALC, STUBC)
