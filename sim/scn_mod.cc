// C07: modules that leave, crash, stall or lose their connection at any point, next to modules that must not notice
#include "rawgen.h"
#include "runout.h"
static const char *REALC = "tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, threads, locks, clocks, signals and disk are simulated; module programs are scripted";
static void fullmix(Gen &g) {
    g.owned = true; g.w[W_READ] = 5; g.w[W_WRITE] = 8; g.w[W_MASK] = 2; g.w[W_RREAD] = 2; g.w[W_ATOMIC] = 2; g.w[W_ADD] = 2; g.w[W_DEL] = 0.5; g.w[W_LOOKUP] = 3; g.w[W_EADD] = 3; g.w[W_EDEL] = 0.7; g.w[W_GADD] = 1.5; g.w[W_GREAD] = 2; g.w[W_GWRITE] = 2; g.w[W_GDEL] = 0.5;
    g.w[W_MADD] = 0.7; g.w[W_MDEL] = 0.3; g.w[W_SYSREAD] = 2; g.w[W_MODTAG] = 0.5; g.w[W_OADD] = 0.4; g.w[W_ODEL] = 0.3; g.w[W_OSET] = 0.4; g.w[W_SLEEP] = 1; }
void audit(Client *c) { // everything the directory and the memory hold is what the model says
    int n = M.db.size(); for(int i = 0; i < n; i++) { api_byindex(c, i); if(i >= (int)M.db.size()) break; MTag &t = M.db[i]; if(!t.exists) continue; if(!t.wildname && choose(c->stream, 2)) api_byname(c, t.name); if(t.queue || t.virt || t.data.empty()) continue; for(uint32_t o = 0; o < t.data.size(); o += 4000) api_rread(c, i, o, std::min<size_t>(4000, t.data.size() - o)); }
    for(auto s : {"_tagcount", "_lastindex", "_tag_added", "_tag_deleted", "_overrides_installed", "_overrides_set", "_lastmodule"}) { int i = M.find(s); if(i >= 0) api_rread(c, i, 0, M.db[i].data.size()); }
    count("audits");
}
static void c07() {
    world_init(); model_attach(); swarm_net(); cfg.p_stall = 0;
    bool stalls = flip(ST_CFG, 0.3); if(stalls) cfg.sockbuf = 5000;
    mark_root(spawn("ctl", [stalls] {
        start_server(); std::vector<std::string> names = {"Alpha", "beta", "Gamma", "d", "e5", "f6", "g7"};
        int ns = 1 + choose(ST_CFG, 3), rounds = 1 + choose(ST_CFG, 5), nv = 1 + choose(ST_CFG, 3); bool *over = new bool(false);
        std::vector<Client *> ss, all;
        for(int i = 0; i < ns; i++) ss.push_back(run_client(i, "surv" + std::to_string(i), [=](Client *c) {
            Gen g(c); g.names = names; fullmix(g); g.w[W_DEL] = 0.2; for(int k = 0; k < 3; k++) g.op(W_ADD);
            while(!*over && more(c->stream, 0.004)) { g.step(); if(flip(c->stream, 0.3)) sleep_us(choose(c->stream, 3000)); }
            wait_until([over] { return *over; }, -1, "end");
            audit(c); for(int k = 0; k < 20; k++) g.step(); }));
        int vid = 10;
        for(int r = 0; r < rounds; r++) {
            std::vector<Client *> vs; std::vector<RawClient *> rv;
            for(int v = 0; v < nv; v++) {
                std::string nm = choose(ST_FAULT, 3) ? "victim" : "victim" + std::to_string(v); int how = choose(ST_FAULT, stalls ? 6 : 5), t = choose(ST_FAULT, 5) == 0 ? 200 : 30000; int at = choose(ST_FAULT, t);
                if(how == 4) { // a hand-made module that ends in the middle of a request
                    int id = vid++; rv.push_back(spawn_raw(id, "raw" + std::to_string(id), [=](RawClient *c) {
                        c->start_reader(); if(choose(c->stream, 4)) c->reg(nm); RawGen g; g.stream = c->stream; g.names = names; g.queues = false; g.p_big = 0.05; int k = 0;
                        while(more(c->stream, 0.15) && k++ < 20) { uint32_t cmd; Bytes d; g.frame(cmd, d); c->send_frames({enc(cmd, d)}, 0, 1); if(choose(c->stream, 2)) c->drain(1000000); }
                        uint32_t cmd; Bytes d; g.frame(cmd, d); Bytes f = enc(cmd, d); c->raw.send(f.data(), 1 + choose(c->stream, f.size() - 1)); fired(F_CLIENTCRASH); count("modules that ended in the middle of a request");
                        if(choose(c->stream, 2)) { c->stop = true; c->raw.close(); } else kill_proc(cur->proc, true, 137, "crash injected"); }));
                    continue; }
                Client *c = spawn_client(vid++, nm, [=](Client *c) {
                    c->neterr = how != 0; int r = c->connect(how == 5 ? 1000 : 20000); if(r) { if(how != 0) return; violation("[connect] client %d could not connect: %d", c->id, r); } c->up = true;
                    Gen g(c); g.names = names; fullmix(g); g.pstop = how == 0 ? 0.05 : 0.005; g.op(W_ADD); int k = 0;
                    while(k++ < 150 && more(c->stream, g.pstop)) { g.step(); if(how == 5 && k % 25 == 20) c->proc->stall_until = now + 6000000; }
                    if(how == 0) { r = dax_disconnect(c->ds); if(r) violation("[disconnect] %d", r); count("modules that left"); if(choose(c->stream, 2)) { r = dax_connect(c->ds); if(r) violation("[connect] connecting again failed with %d", r); c->wire = wire_of_proc(c->proc); Gen g2(c); g2.names = names; fullmix(g2); for(int k = 0; k < 10; k++) g2.step(); r = dax_disconnect(c->ds); if(r) violation("[disconnect] %d", r); } }
                    else if(c->proc->alive) { r = dax_disconnect(c->ds); }
                    dax_free(c->ds); });
                vs.push_back(c);
                if(how == 0 || how == 5) { if(how == 5) { fired(F_STALL); count("modules that stalled"); } continue; }
                spawn("fate", [=] { sleep_us(at); if(!c->wire && !wire_of_proc(c->proc)) { sleep_us(5000); } Wire *w = c->wire ? c->wire : wire_of_proc(c->proc); if(c->proc->main->done) return;
                    if(how == 1 || !w) { fired(F_CLIENTCRASH); count("modules that crashed"); trace("module %s crashes", c->name.c_str()); kill_proc(c->proc, true, 137, "crash injected"); }
                    else if(how == 2) { fired(F_CONNRESET); count("connections reset"); conn_reset(w->c); }
                    else { fired(F_CONNRESET); count("connections half closed"); trace("connection %d half closed", w->serial); w->c->p[0].fin = true; w->c->p[0].fin_t = now; } });
            }
            // the dying modules are gone for the server within a bounded time
            bool ok = wait_until([=] { for(auto c : vs) if(c->proc->alive && !c->proc->main->done) return false; for(auto c : rv) if(!c->finished && c->p->alive) return false; return true; }, 300 * 1000000LL, "victims"); if(!ok) violation("[no-progress] a leaving module did not finish");
            ok = wait_until([=] { for(auto c : vs) for(auto k : conns) if(k->owner[0] == c->proc && k->accepted && !wire_of(k)->srv_closed) return false; for(auto c : rv) if(c->raw.w && !c->raw.w->srv_closed) return false; return true; }, 10 * 1000000LL, "server notices");
            if(!ok) violation("[still-there] the server kept a connection for 10 s after its module was gone");
            nontrivial(); if(choose(ST_FAULT, 2)) sleep_us(choose(ST_FAULT, 20000));
        }
        *over = true; wait_clients(ss, 300 * 1000000LL, "surviving modules");
        if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str());
        if(!wait_until([=] { for(auto k : conns) if(k->accepted && !wire_of(k)->srv_closed) return false; return true; }, 10 * 1000000LL, "server notices")) violation("[still-there] the server kept a connection for 10 s after its module was gone");
        for(int i = 0; i < (int)M.db.size(); i++) if(M.db[i].exists && M.db[i].special) violation("[module-tag] the tag %s of a module that is gone is still there", M.db[i].name.c_str());
    })->main);
    run_loop();
}
SCENARIO("C07", "modules that leave and die", 3, c07, REALC, STUBC)
