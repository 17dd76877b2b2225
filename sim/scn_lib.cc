// C03, C06, C20: the client library against slow, stalled and dying servers, from several threads
#include "rawgen.h"
#include "runout.h"
#include <algorithm>
#include <cerrno>
#include <sys/socket.h>
#include <sys/un.h>
static const char *REALC = "client library (src/lib), tag server (all of src/server), SQLite, Lua";
static const char *STUBC = "sockets, threads, locks, clocks, signals and disk are simulated; module programs are scripted";
extern "C" { int sim_bind(int, const struct sockaddr *, socklen_t); int sim_listen(int, int); int sim_accept(int, struct sockaddr *, socklen_t *); int sim_unlink(const char *); int sim_shutdown(int, int); }
static void rwmix(Gen &g) { g.w[W_READ] = 8; g.w[W_WRITE] = 8; g.w[W_MASK] = 3; g.w[W_RREAD] = 3; g.w[W_RWRITE] = 2; g.w[W_ATOMIC] = 3; g.w[W_ADD] = 1; g.w[W_LOOKUP] = 3; g.w[W_GADD] = 1; g.w[W_GREAD] = 2; g.w[W_GWRITE] = 2; g.w[W_OGET] = 1; g.w[W_EADD] = 0.5; g.w[W_EDEL] = 0.2; g.w[W_MADD] = 0; g.maxevents = 4; }
static void clients_done(const char *what) { (void)what; if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str()); }

// somebody sets the clock
static void jump() { static const int64_t d[] = {700000, 3000000, 40000000, 4000000000LL}; int64_t x = d[choose(ST_FAULT, 4)] + choose(ST_FAULT, 500000); clock_jump(choose(ST_FAULT, 2) ? -x : x); }
// ---------------------------------------------------------------- C03
static void c03_run(bool fatal) {
    world_init(); model_attach(); swarm_net();
    cfg.sockbuf = 65536; cfg.p_eintr = std::initializer_list<double>{0, 0.02, 0.1}.begin()[choose(ST_CFG, 3)]; cfg.p_stall = 0;
    net_errors_ok = true;
    // when the requests of each connection were sent and answered, and how long its module can have been stopped
    struct Cn { usec last = 0; std::deque<usec> open; usec late = -1; Bytes in; }; static std::map<Conn *, Cn> cns; static std::map<Proc *, usec> awake; cns.clear(); awake.clear(); static int tmo;
    auto w0 = on_write; on_write = [w0](Conn *c, int side, const uint8_t *b, size_t n) { w0(c, side, b, n); if(side == 0) { cns[c].last = now; if(n >= 8) cns[c].open.push_back(now); } }; // (a request is written at once, a rest of less is never alone)
    auto r0 = on_read; on_read = [r0](Conn *c, int side, const uint8_t *b, size_t n) { if(r0) r0(c, side, b, n); if(side) return; Cn &x = cns[c]; x.in.insert(x.in.end(), b, b + n);
        while(x.in.size() >= 8) { size_t l = 8 + (x.in[0] << 24 | x.in[1] << 16 | x.in[2] << 8 | x.in[3]); if(x.in.size() < l) break; if(!(x.in[4] & 0x80) && x.open.size()) { usec t = x.open.front(); x.open.pop_front(); if(now > t + (tmo + 50) * 1000LL && awake[c->owner[0]] < t) x.late = t; } x.in.erase(x.in.begin(), x.in.begin() + l); } };
    on_api_result = [](Client *c, const char *what, int r, usec t0) {
        if(!c->wire) return; Cn &x = cns[c->wire->c]; usec t = x.last, d = now - t; bool late = x.late >= t0;
        if(r >= 0 && late && x.open.empty()) violation("[late-answer] client %d: %s returned success although an answer came after the time limit of %d ms", c->id, what, tmo);
        if(r != ERR_TIMEOUT) return; count("timeouts checked"); if(d < (tmo - 2) * 1000LL) violation("[early-timeout] client %d: %s reported a timeout %lld ms after its request, the time limit is %d ms", c->id, what, (long long)d / 1000, tmo);
        if(now - std::max<usec>(t + tmo * 1000LL, awake[c->proc]) > 100000) violation("[late-timeout] client %d: %s reported a timeout %lld ms after its request, the time limit is %d ms", c->id, what, (long long)d / 1000, tmo); };
    mark_root(spawn("ctl", [fatal] {
        start_server();
        struct Sh { bool chaos = false, over = false, go = false; int ready = 0; }; Sh *sh = new Sh;
        std::vector<std::string> names = {"Alpha", "beta", "Gamma", "d", "e5"};
        int n = 1 + choose(ST_CFG, 3); int to = 500 + 250 * choose(ST_CFG, 4); tmo = to; std::vector<Client *> cs;
        for(int i = 0; i < n; i++) cs.push_back(spawn_client(i, "mod" + std::to_string(i), [=](Client *c) {
            int r = c->connect(to); if(r) violation("[connect] client %d could not connect: %d", c->id, r);
            Gen g(c); g.names = names; rwmix(g); if(choose(ST_CFG, 2)) { g.types = {DAX_BOOL, DAX_INT, DAX_LINT}; g.p_bigcount = 0.6; g.w[W_BIG] = 5; } g.pstop = 0.02; g.maxops = 80; for(int k = 0; k < 3; k++) g.op(W_ADD);
            sh->ready++; wait_until([sh] { return sh->chaos; }, -1, "chaos");
            g.run(); nontrivial();
            wait_until([sh] { return sh->go; }, -1, "heal");
            // the delays are over and late answers have had their time: everything has to work again
            g.maxops = 12; g.pstop = 0; g.p_bad = 0;
            for(int k = 0; k < 12; k++) g.step();
            r = dax_disconnect(c->ds); if(r) violation("[disconnect] client %d: dax_disconnect returned %d after the delays ended", c->id, r); dax_free(c->ds);
        }));
        wait_until([sh, n] { return sh->ready == n; }, 60 * 1000000LL, "connected");
        sh->chaos = true; int m = 1 + choose(ST_FAULT, 8);
        for(int k = 0; k < m; k++) {
            sleep_us(1000 + choose(ST_FAULT, 400000)); int len = std::initializer_list<int>{100, 600, 1500, 4000}.begin()[choose(ST_FAULT, 4)] * 1000 + choose(ST_FAULT, 700000);
            int kind = choose(ST_FAULT, 5); if(kind == 4) { jump(); sleep_us(choose(ST_FAULT, 400000)); continue; } fired(kind == 0 ? F_STALL : F_PARTITION);
            if(kind == 0) { server->stall_until = now + len; trace("the server stalls for %d ms", len / 1000); }
            else if(kind == 3) { Client *c = cs[choose(ST_FAULT, n)]; awake[c->proc] = c->proc->stall_until = now + len; trace("module %d stalls for %d ms", c->id, len / 1000); }
            else { Client *c = cs[choose(ST_FAULT, n)]; if(c->wire) { c->wire->c->p[kind == 1].stall_until = now + len; trace("connection of client %d direction %d stalls for %d ms", c->id, kind == 1, len / 1000); } }
            sleep_us(choose(ST_FAULT, len + 300000));
        }
        sleep_us(12 * 1000000LL);
        bool stuck = !wait_until([cs] { for(auto c : cs) if(!c->proc->main->done && !c->proc->main->blocked) return false; return true; }, 0, "x"); (void)stuck;
        sh->over = true;
        // all clients get to the barrier by themselves
        bool ok = wait_until([cs] { for(auto c : cs) if(!c->proc->main->done && std::string(c->proc->main->why) != "heal") return false; return true; }, 400 * 1000000LL, "heal wait");
        if(!ok) violation("[no-progress] a library call did not return within 400 s after the delays ended");
        sleep_us(5 * 1000000LL); net_errors_ok = false; cfg.p_delay = 0; sh->go = true;
        wait_clients(cs, 300 * 1000000LL, "calls after the delays ended"); clients_done("");
    })->main);
    run_loop();
}
static void c03_delay() { c03_run(false); }
SCENARIO("C03", "delays beyond the time limit", 3, c03_delay, REALC, STUBC)

// ---------------------------------------------------------------- C06
struct Reg { int no; int idx = -1, id = -1; bool deleted = false, freed = false; int calls = 0; };
struct C06 { std::vector<Ev> sent; std::vector<usec> readt; std::set<size_t> P = {0}; /* possible positions: equal events cannot be told apart */ size_t pos = 0; Wire *w = nullptr; Client *c = nullptr; std::vector<Reg *> regs; bool incb = false; usec cbend = 0, waitstart = -1; bool timing = true; int ncb = 0; bool consumed = false; int slow = 0; bool stop = false; bool writers_done = false; int cbreq = 0; usec lastrsp = 0; };
static C06 *s6;
static Reg *reg6(int idx, int id) { Reg *r = nullptr; for(auto x : s6->regs) if(x->idx == idx && x->id == id) r = x; return r; }
static bool skippable6(size_t k) { Reg *r = reg6(s6->sent[k].idx, s6->sent[k].id); return !r || r->deleted || k + 8 < s6->sent.size(); } // deleted, or 8 newer ones have come
static bool step6(std::function<bool(size_t)> match) {
    std::set<size_t> q; for(size_t p : s6->P) for(size_t k = p; k < s6->sent.size(); k++) { if(match(k)) q.insert(k + 1); if(!skippable6(k)) break; }
    if(q.empty()) return false; s6->P = q; s6->pos = *q.rbegin(); return true;
}
static void end6() { // everything the server sent has been dispatched, unless it may have been dropped
    bool ok = false; size_t bad = 0; for(size_t p : s6->P) { size_t k = p; while(k < s6->sent.size() && skippable6(k)) k++; if(k >= s6->sent.size()) ok = true; else bad = k; }
    if(!ok) violation("[event-lost] event %zu of %zu (tag %d id %d) was never dispatched although at most 8 events were pending", bad + 1, s6->sent.size(), s6->sent[bad].idx, s6->sent[bad].id);
}
static void free6(void *ud) { Reg *r = (Reg *)ud; if(r->freed) violation("[event-free] the user data of an event was freed twice"); r->freed = true; }
static int nfib6() { int n = 0; for(auto f : s6->c->proc->fibers) n += !f->done && f->blocked; return n; }
static void cb6(dax_state *ds, void *ud) {
    Reg *r = (Reg *)ud; s6->ncb++; r->calls++; if(r->freed && !r->deleted) violation("[event-free] user data freed before its event was deleted");
    Bytes d(5000, 0); int n = dax_event_get_data(ds, d.data(), d.size()); if(n < 0) n = 0; d.resize(n);
    if(r->idx < 0) violation("[event-early] the callback of an event that was never added was called");
    auto is = [&](size_t k) { return s6->sent[k].idx == r->idx && s6->sent[k].id == r->id && s6->sent[k].data == d; };
    std::set<size_t> before = s6->P;
    if(!step6(is)) {
        size_t p = *before.rbegin(), j = p; while(j < s6->sent.size() && !is(j)) j++;
        if(j < s6->sent.size()) { size_t k = p; while(skippable6(k)) k++; violation("[event-lost] event %zu of %zu (tag %d id %d) was passed over although at most 8 events were pending", k + 1, s6->sent.size(), s6->sent[k].idx, s6->sent[k].id); }
        for(size_t k = 0; k < p; k++) if(is(k)) violation("[event-order] event tag %d id %d data %s was dispatched twice or out of order", r->idx, r->id, hex(d).c_str());
        violation("[event-wrong] the callback registered for event tag %d id %d was called with data %s, which the server did not send", r->idx, r->id, hex(d).c_str());
    }
    size_t j = s6->pos - 1; trace("callback for event %zu (tag %d id %d)", j + 1, r->idx, r->id);
    if(*s6->P.begin() > *before.begin() + 1) count("events passed over"); s6->consumed = true; count("event dispatched"); state(((s6->sent.size() - s6->pos) * 16 + (s6->readt.size() - s6->pos)) * 64 + r->no * 4 + nfib6());
    if(s6->timing && s6->waitstart >= 0 && j < s6->readt.size()) { usec t = std::max(std::max(std::max(s6->readt[j], s6->waitstart), s6->cbend), s6->lastrsp); if(now - t > 50000) violation("[event-late] an event was received but the waiting module got it only %lld ms later", (long long)(now - t) / 1000); }
    if(s6->cbreq && flip(ST_ACTOR0 + 30, 0.3) && r->idx < M.ntags() && M.db[r->idx].exists && !M.db[r->idx].queue) api_rread(s6->c, r->idx, 0, std::min<size_t>(M.db[r->idx].data.size(), 8)); // requests from within a callback
    if(s6->slow && flip(ST_ACTOR0 + 30, 0.3)) sleep_us(choose(ST_ACTOR0 + 30, s6->slow * 1000));
    s6->cbend = now;
}
static void c06() {
    world_init(); model_attach(); swarm_net(); cfg.p_stall = 0; cfg.p_eintr = std::initializer_list<double>{0, 0.03}.begin()[choose(ST_CFG, 2)];
    s6 = new C06; s6->slow = std::initializer_list<int>{0, 2, 60}.begin()[choose(ST_CFG, 3)]; s6->cbreq = choose(ST_CFG, 2);
    auto prev = on_event_frame; on_event_frame = [prev](Wire *w, const Ev &e) { prev(w, e); if(w == s6->w) s6->sent.push_back(e); };
    auto buf = new Bytes; on_read = [buf](Conn *c, int side, const uint8_t *b, size_t n) { if(!s6->w || c != s6->w->c || side != 0) return; buf->insert(buf->end(), b, b + n);
        while(buf->size() >= 8) { uint32_t sz = ((*buf)[0] << 24) | ((*buf)[1] << 16) | ((*buf)[2] << 8) | (*buf)[3]; if(buf->size() < 8 + (size_t)sz) break; if((*buf)[4] & 0x80) s6->readt.push_back(now); else s6->lastrsp = now; buf->erase(buf->begin(), buf->begin() + 8 + sz); } };
    mark_root(spawn("ctl", [] {
        start_server(); int nt = 2 + choose(ST_CFG, 4), nw = 1 + choose(ST_CFG, 3), nd = 1 + choose(ST_CFG, 5) / 4; bool own = flip(ST_CFG, 0.6); int pace = std::initializer_list<int>{300, 5000, 30000}.begin()[choose(ST_CFG, 3)]; if(nd > 1) s6->timing = false;
        std::vector<std::string> names; for(int i = 0; i < nt; i++) names.push_back("t" + std::to_string(i));
        struct Sh { bool ready = false, wdone = false, mdone = false; int ddone = 0; }; Sh *sh = new Sh;
        Client *c = spawn_client(0, "consumer", [=](Client *c) {
            int r = c->connect(20000); if(r) violation("[connect] %d", r); s6->c = c; s6->w = c->wire;
            for(auto &n : names) api_add(c, n, DAX_LINT, 2, 0);
            auto addev = [=](int t) { int idx = M.find(names[t]); Reg *rg = new Reg; rg->no = s6->regs.size(); s6->regs.push_back(rg); dax_id id = {-9, -9}; int ty = choose(c->stream, 3) ? EVENT_CHANGE : EVENT_WRITE; tag_handle h = H(idx, 0, 0, 1 + choose(c->stream, 2), 0, DAX_LINT); h.size = 8 * h.count; Bytes d(16, 0);
                CallInfo ci = api(c, "dax_event_add", C_EADD, [&] { return dax_event_add(c->ds, &h, ty, d.data(), &id, cb6, rg, free6); }, [rg, idx](CallInfo &, Wire *, const Frame &, const Frame &rsp) { int x; memcpy(&x, &rsp.d[0], 4); rg->idx = idx; rg->id = x; });
                if(ci.ok) { if(id.index != rg->idx || id.id != rg->id) violation("[event-id] dax_event_add returned %d,%d", id.index, id.id); if(choose(c->stream, 4)) api_event_opt(c, id, EVENT_OPT_SEND_DATA); } };
            for(int t = 0; t < nt; t++) addev(t);
            sh->ready = true;
            for(int k = 0; k < nd; k++) thread(cur->proc, "dispatch", [=] {
                int st = ST_ACTOR0 + 31 + k; int idle = 0;
                while(!(sh->wdone && sh->mdone && idle >= 2)) {
                    if(choose(st, 5) == 0) { s6->consumed = false; dax_id id; int q = dax_event_poll(c->ds, &id); idle = 0; if(q == 0) { if(!s6->consumed && nd == 1) violation("[event-dispatch] dax_event_poll reported an event but no callback was called"); } else if(q == ERR_NOTFOUND) sleep_us(1 + choose(st, 3000)); else if(q == ERR_GENERIC) goto unknown; else violation("[event-poll] dax_event_poll returned %d", q); continue; }
                    else {
                        bool fin0 = sh->wdone && sh->mdone; int tmo = 1 + choose(st, 60); usec t0 = now; s6->waitstart = now; s6->consumed = false; dax_id id = {-3, -3}; int q = dax_event_wait(c->ds, tmo, &id); s6->waitstart = -1;
                        if(q == 0) { idle = 0; if(nd == 1 && !s6->consumed) violation("[event-dispatch] dax_event_wait reported an event but no callback was called"); Reg *rg = reg6(id.index, id.id); if(!rg) violation("[event-dispatch] dax_event_wait returned the id %d,%d of no event", id.index, id.id); }
                        else if(q == ERR_TIMEOUT) { if(fin0) idle++; count("event wait timeout");
                            if(now - t0 < tmo * 1000LL - 1000) violation("[event-timeout] dax_event_wait(%d ms) reported a timeout after %lld us", tmo, (long long)(now - t0));
                            if(now - std::max<usec>(t0 + tmo * 1000LL, s6->lastrsp) > 100000 && s6->timing) violation("[event-timeout] dax_event_wait(%d ms) returned after %lld us", tmo, (long long)(now - t0));
                            if(s6->timing && s6->pos < s6->readt.size() && s6->readt[s6->pos] < now - 30000 && s6->readt[s6->pos] >= t0) { Reg *rg = reg6(s6->sent[s6->pos].idx, s6->sent[s6->pos].id); if(rg && !rg->deleted && s6->sent.size() - s6->pos <= 8) violation("[event-timeout] dax_event_wait reported a timeout although an event arrived while it waited"); }
                            if(s6->timing && s6->sent.size() - s6->pos <= 8 && s6->pos < s6->readt.size() && s6->readt[s6->pos] < t0 - 30000) { Reg *rg = reg6(s6->sent[s6->pos].idx, s6->sent[s6->pos].id); if(rg && !rg->deleted) violation("[event-timeout] dax_event_wait reported a timeout although an event was pending"); }
                        } else if(q == ERR_GENERIC) goto unknown; else violation("[event-wait] dax_event_wait returned %d", q);
                    }
                    continue;
                unknown: idle = 0; { // an event that was deleted before it was dispatched
                        if(nd > 1) continue; // (the other thread's position is not known exactly)
                        if(!step6([](size_t k) { Reg *rg = reg6(s6->sent[k].idx, s6->sent[k].id); return !rg || rg->deleted; })) violation("[event-wrong] the library did not know an event that has not been deleted"); count("event of a deleted registration"); } }
                sh->ddone++; });
            int k = 0;
            if(own) while(more(c->stream, 0.05) && k++ < 60) { int t = choose(c->stream, nt), idx = M.find(names[t]); int op = choose(c->stream, 10);
                if(op < 5) { Bytes d(8); uint64_t v = choose64(c->stream); memcpy(d.data(), &v, 8); api_rwrite(c, idx, 8 * choose(c->stream, 2), d); }
                else if(op < 7) api_rread(c, idx, 0, 16);
                else if(op == 7) addev(t);
                else if(op == 8) { std::vector<Reg *> v; for(auto x : s6->regs) if(x->id >= 0 && !x->deleted) v.push_back(x); if(v.size() > 1) { Reg *x = v[choose(c->stream, v.size())]; x->deleted = true; api_event_del(c, {x->idx, x->id}); if(!x->freed) violation("[event-free] the user data of a deleted event was not freed"); } }
                else sleep_us(choose(c->stream, pace)); }
            sh->mdone = true; wait_until([sh, nd] { return sh->ddone == nd; }, -1, "dispatchers");
            end6();
            if(s6->sent.size() && s6->ncb) nontrivial();
            r = dax_disconnect(c->ds); if(r) violation("[disconnect] %d", r); dax_free(c->ds);
            for(auto x : s6->regs) if(x->id >= 0 && !x->freed) violation("[event-free] the user data of event %d,%d was never freed", x->idx, x->id);
        });
        wait_until([sh] { return sh->ready; }, 60 * 1000000LL, "consumer ready");
        std::vector<Client *> ws; if(choose(ST_CFG, 2)) thread(cur->proc, "clock", [=] { while(!(sh->wdone && sh->mdone)) { sleep_us(1 + choose(ST_FAULT, 400000)); jump(); } });
        for(int i = 0; i < nw; i++) ws.push_back(run_client(1 + i, "writer" + std::to_string(i), [=](Client *c) { int k = 0; uint64_t x = 1000000ULL * (c->id + 1);
            while(more(c->stream, 0.03) && k++ < 80) { int idx = M.find(names[choose(c->stream, nt)]); x++; Bytes d(8); memcpy(d.data(), &x, 8); api_rwrite(c, idx, 8 * choose(c->stream, 2), d); if(flip(c->stream, 0.4)) sleep_us(choose(c->stream, pace)); } }));
        wait_clients(ws, 300 * 1000000LL, "writers"); if(!wait_until([] { return s6->readt.size() >= s6->sent.size(); }, 60 * 1000000LL, "events in flight")) violation("[event-unread] the library stopped reading its connection"); sh->wdone = true;
        wait_clients({c}, 300 * 1000000LL, "the consumer"); clients_done("");
    })->main);
    run_loop();
}
SCENARIO("C06", "event dispatch", 3, c06, REALC, STUBC)

// ---------------------------------------------------------------- C20
static void c20_threads() {
    world_init(); model_attach(); swarm_net(); cfg.p_eintr = std::initializer_list<double>{0, 0.03}.begin()[choose(ST_CFG, 2)];
    if(choose(ST_CFG, 3)) { cfg.preempt_mean = std::initializer_list<int>{15, 60, 300}.begin()[choose(ST_CFG, 3)]; simi::arm_preempt(); }
    mark_root(spawn("ctl", [] {
        start_server(); int n = 2 + choose(ST_CFG, 5); bool disp = flip(ST_CFG, 0.5); int procs = 1 + choose(ST_CFG, 2); std::vector<Client *> cs;
        for(int p = 0; p < procs; p++) cs.push_back(spawn_client(p, "mod" + std::to_string(p), [=](Client *c) {
            int r = c->connect(20000); if(r) violation("[connect] %d", r);
            int *done = new int(0); bool *stop = new bool(false); int *dd = new int(0);
            for(int k = 0; k < n; k++) thread(cur->proc, "worker", [=] {
                Client *t = new Client(*c); t->stream = ST_ACTOR0 + 10 + p * 10 + k; t->id = 100 + p * 10 + k; Gen g(t); g.names = {"Alpha", "beta", "Gamma", "d"}; rwmix(g); g.w[W_CDT] = 0; g.pstop = 0.06; g.maxops = 60; g.op(W_ADD); g.run(); (*done)++; });
            if(disp) thread(cur->proc, "dispatch", [=] { while(!*stop) { dax_id id; int q = dax_event_wait(c->ds, 20, &id); if(q && q != ERR_TIMEOUT && q != ERR_GENERIC) violation("[event-wait] dax_event_wait returned %d", q); } *dd = 1; });
            if(!wait_until([=] { return *done == n; }, 500 * 1000000LL, "workers")) violation("[no-progress] calls from several threads did not return");
            *stop = true; if(disp && !wait_until([=] { return *dd; }, 10 * 1000000LL, "dispatcher")) violation("[no-progress] dax_event_wait with a timeout did not return");
            nontrivial(); r = dax_disconnect(c->ds); if(r) violation("[disconnect] %d", r); dax_free(c->ds);
            if(!wait_until([c] { for(auto f : c->proc->fibers) if(f != cur && !f->done) return false; return true; }, 1000000, "threads")) violation("[thread-leak] a library thread is still running after dax_free");
            if(!c->proc->fds.empty()) violation("[fd-leak] a file descriptor is still open after dax_free");
        }));
        wait_clients(cs, 600 * 1000000LL, "threads"); clients_done("");
    })->main);
    run_loop();
}
SCENARIO("C20", "many threads on one connection", 3, c20_threads, REALC, STUBC)
static int disc_calls; static void disc_cb(int) { disc_calls++; count("disconnect callback"); }
// connections that break, servers that die and come back, disconnecting while other threads are in calls
static void c20_life() {
    world_init(); model_attach(); swarm_net(); cfg.p_eintr = std::initializer_list<double>{0, 0.03}.begin()[choose(ST_CFG, 2)]; cfg.p_stall = 0; net_errors_ok = true; disc_calls = 0;
    if(choose(ST_CFG, 3)) { cfg.preempt_mean = std::initializer_list<int>{15, 60, 300}.begin()[choose(ST_CFG, 3)]; simi::arm_preempt(); }
    mark_root(spawn("ctl", [] {
        start_server(); int n = 1 + choose(ST_CFG, 4); bool disp = flip(ST_CFG, 0.6);
        struct Sh { bool phase = false, stop = false; int lives = 0; bool want_kill = false, killed = false, restarted = false; }; Sh *sh = new Sh;
        Client *c = spawn_client(0, "mod0", [=](Client *c) {
            int r = c->connect(1000); if(r) violation("[connect] %d", r); dax_set_disconnect_callback(c->ds, disc_cb); c->ds = c->ds;
            int lives = 1 + choose(c->stream, 4); int *active = new int(0); bool *stop = new bool(false); int *dact = new int(0); bool *mayfail = new bool(false);
            for(int l = 0; l < lives; l++) {
                *stop = false; *active = 0; int before = disc_calls;
                for(int k = 0; k < n; k++) { ++*active; thread(cur->proc, "worker", [=] { Client *t = new Client(*c); t->stream = ST_ACTOR0 + 10 + k; t->id = 100 + k; Gen g(t); g.names = {"Alpha", "beta", "Gamma", "d"}; rwmix(g); g.w[W_GADD] = 0; g.w[W_GREAD] = 0; g.w[W_GWRITE] = 0; int q = 0; while(!*stop && q++ < 200 && more(t->stream, 0.01)) { g.step(); if(flip(t->stream, 0.2)) sleep_us(choose(t->stream, 2000)); } --*active; }); }
                if(disp) { ++*dact; thread(cur->proc, "dispatch", [=] { while(!*stop) { dax_id id; int q = dax_event_wait(c->ds, choose(ST_ACTOR0 + 40, 3) ? 30 : 0, &id); if(q == ERR_DISCONNECTED) { if(!*mayfail) violation("[event-wait] dax_event_wait reported a lost connection"); sleep_us(1000); break; } if(q && q != ERR_TIMEOUT && q != ERR_GENERIC) violation("[event-wait] dax_event_wait returned %d", q); } --*dact; }); }
                sleep_us(choose(c->stream, 60000));
                int how = choose(c->stream, 4); *mayfail = true;
                if(how == 0) { r = dax_disconnect(c->ds); if(r && !is_net_error(r)) violation("[disconnect] dax_disconnect returned %d", r); }
                else if(how == 1) { fired(F_CONNRESET); conn_reset(c->wire->c); }
                else if(how == 2) { fired(F_SERVERCRASH); sh->want_kill = true; wait_until([sh] { return sh->killed; }, -1, "kill"); }
                else { fired(F_CONNRESET); { Pipe &pp = c->wire->c->p[1]; pp.fin = true; pp.fin_t = now; } /* the stream ends without a reset */ }
                // every pending call comes back, and calls made now fail
                if(how != 0) { // the library notices by itself
                    bool ok = wait_until([=] { return disc_calls > before; }, 20 * 1000000LL, "disconnect callback"); if(!ok) violation("[no-callback] the disconnect callback was not called within 20 s after the connection broke"); }
                sleep_us(choose(c->stream, 3000));
                for(int k = 0; k < 3; k++) { Bytes b(8); int q = dax_read(c->ds, 0, 0, b.data(), 4); if(q >= 0) violation("[call-after-loss] dax_read returned %d after the connection was lost", q); if(!is_net_error(q)) violation("[call-after-loss] dax_read returned %d after the connection was lost", q); }
                *stop = true; if(!wait_until([=] { return *active == 0 && *dact == 0; }, 60 * 1000000LL, "workers")) violation("[no-progress] a call or dax_event_wait did not return within 60 s after the connection was lost");
                if(how == 0 && disc_calls != before) violation("[callback] the disconnect callback was called for the module's own dax_disconnect");
                if(how != 0 && disc_calls != before + 1) violation("[callback] the disconnect callback was called %d times for one lost connection", disc_calls - before);
                nontrivial(); count("connection lives");
                if(how != 0 && choose(c->stream, 2)) { r = dax_disconnect(c->ds); if(r >= 0 && how != 0) violation("[disconnect] dax_disconnect returned %d on a lost connection", r); }
                if(sh->killed) { // no server: connecting fails
                    if(choose(c->stream, 2)) { r = dax_connect(c->ds); if(r >= 0) violation("[connect] dax_connect returned %d although there is no server", r); }
                    sh->killed = false; sh->restarted = true; wait_until([sh] { return !sh->restarted; }, -1, "restart");
                }
                if(l + 1 == lives && choose(c->stream, 2)) break;
                *mayfail = false; usec t0 = now; r = dax_connect(c->ds); if(r) violation("[connect] connecting again failed with %d (after %lld ms)", r, (long long)(now - t0) / 1000);
                c->wire = wire_of_proc(c->proc); r = dax_connect(c->ds); if(r == 0) violation("[connect] dax_connect succeeded on a connected module");
                Gen g(c); g.names = {"Alpha", "beta"}; g.w[W_ADD] = 1; g.w[W_READ] = 2; g.w[W_WRITE] = 2; g.p_bad = 0; for(int k = 0; k < 4; k++) { g.op(W_ADD); g.op(W_WRITE); g.op(W_READ); }
            }
            dax_free(c->ds);
            if(!wait_until([c] { for(auto f : c->proc->fibers) if(f != cur && !f->done) return false; return true; }, 1000000, "threads")) violation("[thread-leak] a library thread is still running after dax_free");
            if(!c->proc->fds.empty()) violation("[fd-leak] a file descriptor is still open after dax_free");
        });
        while(!c->proc->main->done) {
            wait_until([=] { return c->proc->main->done || sh->want_kill || sh->restarted; }, 700 * 1000000LL, "life");
            if(sh->want_kill) { sh->want_kill = false; server->death = "killed"; kill_proc(server, true, 137, "crash injected"); disk_process_crash(); sh->killed = true; }
            else if(sh->restarted) { M.reset(); start_server(); sh->restarted = false; }
            else break;
        }
        wait_clients({c}, 100 * 1000000LL, "connection lives");
    })->main);
    run_loop();
}
SCENARIO("C20", "connections made, broken and made again", 3, c20_life, REALC, STUBC)
// connection attempts against peers that refuse, close, answer wrongly or never answer
static void c20_connect() {
    world_init(); model_attach(); swarm_net(); net_errors_ok = true;
    if(choose(ST_CFG, 2)) { cfg.preempt_mean = 30; simi::arm_preempt(); }
    mark_root(spawn("ctl", [] {
        int kind = choose(ST_CFG, 8); struct Sh { bool stop = false, up = false, tried = false, realup = false; }; Sh *sh = new Sh; Proc *fake = nullptr; bool *fakemode = new bool(true); auto prevw = on_new_wire; on_new_wire = [=](Wire *w) { if(prevw) prevw(w); if(*fakemode) w->raw = true; };
        if(kind > 0) { fake = spawn("fakeserver", [sh, kind] {
            cur->proc->noeintr = true; int s = sim_socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, SRV_SOCK); sim_bind(s, (struct sockaddr *)&a, sizeof a); sim_listen(s, 5); sh->up = true;
            while(!sh->stop) { struct timeval tv = {0, 100000}; int fd = sim_accept(s, nullptr, nullptr); if(fd < 0) break; fired(F_CONNREFUSED);
                Bytes b(4200); if(kind != 1) { size_t got = 0; while(got < 8) { ssize_t r = sim_read(fd, b.data() + got, b.size() - got); if(r <= 0) break; got += r; } }
                Bytes o; B x; int32_t e = ERR_ALLOC;
                switch(kind) { case 1: case 2: break; // closes at once / after the request
                    case 3: x.be32(4).be32(1 | RERR).raw(&e, 4); o = x.v; break; // an error
                    case 4: x.be32(40).be32(1 | RSP).u32(0); o = x.v; break; // part of an answer, then the end
                    case 5: break; // never answers
                    case 6: x.be32(0x7fffffff).be32(0xdeadbeef); o = x.v; break;
                    case 7: x.be32(4).be32(6 | RERR).raw(&e, 4); o = x.v; break; } // an answer to something else
                if(o.size()) sim_write(fd, o.data(), o.size());
                if(kind == 5 || kind == 7) wait_until([sh] { return sh->tried; }, -1, "tried");
                sim_close(fd); }
        }); wait_until([sh] { return sh->up; }, -1, "fake up"); }
        Client *c = spawn_client(0, "mod0", [=](Client *c) {
            usec t0 = now; int r = c->connect(1000); if(r == 0) violation("[connect] dax_connect reported success although the registration was not answered properly (kind %d)", kind); if(now - t0 > 60 * 1000000LL) violation("[connect] the failed connection attempt took %lld s", (long long)(now - t0) / 1000000); count("failed connection attempts"); nontrivial();
            Bytes b(8); int q = dax_read(c->ds, 0, 0, b.data(), 4); if(q >= 0) violation("[call-after-loss] dax_read returned %d without a connection", q);
            if(choose(c->stream, 2)) { q = dax_disconnect(c->ds); if(q >= 0) violation("[disconnect] dax_disconnect returned %d without a connection", q); }
            sh->tried = true; if(choose(c->stream, 4) == 0) { dax_free(c->ds); if(!c->proc->fds.empty()) violation("[fd-leak] a file descriptor is still open after dax_free"); return; }
            wait_until([sh] { return sh->realup; }, -1, "real server");
            r = dax_connect(c->ds); if(r) violation("[connect] connecting failed with %d after the server came up", r); c->wire = wire_of_proc(c->proc);
            net_errors_ok = false; Gen g(c); g.names = {"Alpha", "beta"}; g.p_bad = 0; g.op(W_ADD); g.w[W_READ] = g.w[W_WRITE] = 1; for(int k = 0; k < 6; k++) g.step();
            r = dax_disconnect(c->ds); if(r) violation("[disconnect] %d", r); dax_free(c->ds); if(!c->proc->fds.empty()) violation("[fd-leak] a file descriptor is still open after dax_free");
        });
        if(!wait_until([=] { return sh->tried || c->proc->main->done; }, 200 * 1000000LL, "attempt")) violation("[no-progress] dax_connect did not return");
        sh->stop = true; if(fake) kill_proc(fake, false, 0, "done"); *fakemode = false; start_server(); sh->realup = true;
        wait_clients({c}, 100 * 1000000LL, "connecting");
    })->main);
    run_loop();
}
SCENARIO("C20", "failing connection attempts", 1, c20_connect, REALC, STUBC)
