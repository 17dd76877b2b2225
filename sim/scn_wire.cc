// C02: requests split, merged, delayed and pipelined on any number of connections
#include "rawgen.h"
static const char *REALC = "tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, clocks, signals and disk are simulated; the requests are made by hand-written connections";
static void c02() {
    world_init(); model_attach(); swarm_net();
    mark_root(spawn("ctl", [] {
        start_server();
        std::vector<std::string> names; for(int i = 0; i < 8; i++) names.push_back("t" + std::to_string(i));
        int n = 1 + choose(ST_CFG, 5), part = choose(ST_CFG, 4); bool lib = flip(ST_CFG, 0.5); int burst = 1 + choose(ST_CFG, 24); int pause = std::initializer_list<int>{2, 40, 700}.begin()[choose(ST_CFG, 3)]; double pp = std::initializer_list<double>{0.3, 0.05, 0}.begin()[choose(ST_CFG, 3)];
        std::vector<RawClient *> rs; std::vector<Client *> cs; std::vector<RawClient *> ps;
        for(int i = 0; i < n; i++) rs.push_back(spawn_raw(i, "raw" + std::to_string(i), [=](RawClient *c) {
            c->start_reader(); RawGen g; g.stream = c->stream; g.names = names;
            if(flip(c->stream, 0.5)) { if(!c->reg("rawmod" + std::to_string(c->id))) violation("[no-answer] the registration of raw client %d was not answered", c->id); }
            int rounds = 0;
            while(more(c->stream, 0.1) && rounds++ < 12) {
                std::vector<Bytes> fs; int k = 1 + choose(c->stream, burst); for(int j = 0; j < k; j++) { uint32_t cmd; Bytes d; g.frame(cmd, d); fs.push_back(enc(cmd, d)); }
                if(!c->send_frames(fs, pp, pause)) violation("[closed] the server closed the connection of raw client %d although all its requests are well-formed", c->id);
                if(flip(c->stream, 0.5) || k > 10) { if(!c->drain(10 * 1000000LL)) violation("[no-answer] raw client %d: %zu complete requests were not answered within 10 s", c->id, c->sentcmds.size()); }
            }
            if(!c->drain(10 * 1000000LL)) violation("[no-answer] raw client %d: %zu complete requests were not answered within 10 s", c->id, c->sentcmds.size());
            count("pipelined requests", c->nans); nontrivial();
            c->stop = true; wait_until([c] { return c->rdone; }, -1, "reader"); if(flip(c->stream, 0.8)) c->raw.close();
        }));
        for(int i = 0; i < part; i++) ps.push_back(spawn_raw(10 + i, "partial" + std::to_string(i), [=](RawClient *c) { // leaves a request incomplete, then finishes it, closes or stays silent
            RawGen g; g.stream = c->stream; g.names = names; int rounds = 0; c->start_reader();
            while(more(c->stream, 0.3) && rounds++ < 5) {
                uint32_t cmd; Bytes d; g.frame(cmd, d); Bytes f = enc(cmd, d); size_t k = 1 + choose(c->stream, f.size() - 1);
                c->raw.send(f.data(), k); if(c->raw.closed) violation("[closed] the server closed a connection because a request was incomplete");
                sleep_us(choose(c->stream, 4000000)); count("incomplete requests");
                int what = choose(c->stream, 3);
                if(what == 1) { c->stop = true; wait_until([c] { return c->rdone; }, -1, "reader"); c->raw.close(); return; }
                if(what == 2) { c->stop = true; return; }
                c->sentcmds.push_back(cmd); c->raw.send(f.data() + k, f.size() - k);
                if(!c->drain(10 * 1000000LL)) violation("[no-answer] a request completed after a pause was not answered within 10 s");
            }
            c->stop = true;
        }));
        if(lib) cs.push_back(run_client(20, "libmod", [names](Client *c) { Gen g(c); g.names = {"u1", "u2", "u3"}; g.pstop = 0.02; g.w[W_READ] = 5; g.w[W_WRITE] = 5; g.w[W_MASK] = 2; g.w[W_ATOMIC] = 2; g.w[W_ADD] = 1; g.usable = [](int i) { return M.db[i].name[0] == 'u'; }; g.op(W_ADD); g.run(); }));
        wait_clients(cs, 300 * 1000000LL, "library client");
        bool ok = wait_until([rs] { for(auto r : rs) if(!r->finished) return false; return true; }, 600 * 1000000LL, "raw clients");
        if(!ok) violation("[no-progress] raw clients did not finish");
        if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str());
    })->main);
    run_loop();
}
SCENARIO("C02", "pipelined and split requests", 3, c02, REALC, STUBC)
