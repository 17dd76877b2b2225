#include "world.h"
#include "runout.h"
#include <getopt.h>
#include <cerrno>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>

const char *SRV_SOCK = "/sim/dax"; Proc *server = nullptr;
std::function<void(Wire *, const Frame &, const Frame &)> on_answer;
std::function<void(Wire *, const Frame &, const Frame &)> model_hook;
std::function<void(Wire *, const Ev &)> on_event_frame;
std::function<void(Wire *)> on_server_close, on_new_wire;
static std::map<Conn *, Wire *> wires; static std::vector<Wire *> wirelist;
static std::map<Fiber *, Op *> curop;

std::string hex(const std::vector<uint8_t> &v) { std::string s; char b[4]; for(size_t i = 0; i < v.size() && i < 40; i++) { snprintf(b, 4, "%02x", v[i]); s += b; } if(v.size() > 40) s += ".."; return s; }
OpScope::OpScope(std::function<void(Wire *, const Frame &, const Frame &)> at) { op = new Op; op->at = at; curop[cur] = op; }
OpScope::~OpScope() { op->returned = true; op->at = nullptr; curop.erase(cur); } // a late answer is only seen by the model
Wire *wire_of(Conn *c) {
    auto it = wires.find(c); if(it != wires.end()) return it->second;
    Wire *w = new Wire; w->c = c; w->serial = wirelist.size(); wires[c] = w; wirelist.push_back(w);
    if(on_new_wire) on_new_wire(w);
    return w;
}
Wire *wire_of_proc(Proc *p) { Wire *r = nullptr; for(auto c : conns) if(c->owner[0] == p && (c->key == std::string("unix:") + SRV_SOCK || c->key == "tcp:7777")) r = wire_of(c); return r; }
static uint32_t be(const uint8_t *p) { return (p[0] << 24) | (p[1] << 16) | (p[2] << 8) | p[3]; }
static bool srvconn(Conn *c) { return c->key == std::string("unix:") + SRV_SOCK || c->key == "tcp:7777"; }

static void answer(Wire *w, const Frame &f) {
    if(w->reqs.empty()) violation("[extra-answer] the server sent an answer (command 0x%x) on connection %d without a request outstanding", f.cmd, w->serial);
    Wire::Rq q = w->reqs.front(); w->reqs.pop_front(); w->nrsp++;
    trace("answer conn %d cmd 0x%x %s payload %s", w->serial, f.cmd, (f.cmd & RERR) ? "ERR" : "ok", hex(f.d).c_str());
    if((f.cmd & 0xffffff) != q.f.cmd || !(f.cmd & (RSP | RERR))) violation("[wrong-answer] connection %d: request command 0x%x got an answer of command 0x%x", w->serial, q.f.cmd, f.cmd);
    if(model_hook) model_hook(w, q.f, f);
    if(q.op) { q.op->answers++; if(q.op->at) q.op->at(w, q.f, f); }
    if(on_answer) on_answer(w, q.f, f);
}
static void srv_bytes(Wire *w, const uint8_t *b, size_t n) {
    w->rp.insert(w->rp.end(), b, b + n);
    while(w->rp.size() >= 8) {
        Frame f; f.size = be(w->rp.data()); f.cmd = be(w->rp.data() + 4);
        if(f.size > 1 << 20) violation("[bad-frame] the server sent a frame with size %u", f.size);
        if(w->rp.size() < 8 + (size_t)f.size) break;
        f.d.assign(w->rp.begin() + 8, w->rp.begin() + 8 + f.size);
        w->rp.erase(w->rp.begin(), w->rp.begin() + 8 + f.size);
        if(f.cmd & 0x80000000u) {
            Ev e; e.type = f.cmd & 0x7fffffff; memset(&e.idx, 0, 8); if(f.d.size() >= 8) { memcpy(&e.idx, f.d.data(), 4); memcpy(&e.id, f.d.data() + 4, 4); e.data.assign(f.d.begin() + 8, f.d.end()); }
            else violation("[bad-frame] the server sent an event frame of %zu bytes", f.d.size());
            e.idx = ntohl(e.idx); e.id = ntohl(e.id);
            w->nevt++; trace("event conn %d type %u idx %d id %d data %s", w->serial, e.type, e.idx, e.id, hex(e.data).c_str());
            if(on_event_frame) on_event_frame(w, e);
        } else answer(w, f);
    }
}
static void cli_bytes(Wire *w, const uint8_t *b, size_t n) {
    if(w->raw) return;
    w->rq.insert(w->rq.end(), b, b + n);
    while(w->rq.size() >= 8) {
        Frame f; f.size = be(w->rq.data()); f.cmd = be(w->rq.data() + 4);
        if(f.size < 8 || f.size > 4096) violation("[bad-request] the library sent a request with size %u", f.size);
        if(w->rq.size() < f.size) break;
        f.d.assign(w->rq.begin() + 8, w->rq.begin() + f.size); w->rq.erase(w->rq.begin(), w->rq.begin() + f.size);
        auto it = curop.find(cur); w->nreq++;
        trace("request conn %d cmd 0x%x payload %s", w->serial, f.cmd, hex(f.d).c_str());
        w->reqs.push_back({f, it == curop.end() ? nullptr : it->second});
    }
}
void world_init() {
    simi::arm_preempt();
    // the server's bytes are looked at when it offers them, so an answer counts even if the peer is gone or stalled
    on_offer = [](Conn *c, int side, const uint8_t *b, size_t n) {
        if(!srvconn(c) || side != 1) return; Wire *w = wire_of(c); if(w->raw) return;
        if(w->accepted + n > w->processed) { size_t skip = w->processed - w->accepted; w->processed = w->accepted + n; srv_bytes(w, b + skip, n - skip); } };
    on_write = [](Conn *c, int side, const uint8_t *b, size_t n) { if(!srvconn(c)) return; Wire *w = wire_of(c); if(side == 0) cli_bytes(w, b, n); else w->accepted += n; };
    on_write_fail = [](Conn *c, int side, const uint8_t *b, size_t n) { if(!srvconn(c) || side != 1) return; Wire *w = wire_of(c); trace("the server could not send on connection %d", w->serial); w->accepted = w->processed; w->sendfailed = true; };
    on_close = [](Conn *c, int side) { if(!srvconn(c)) return; Wire *w = wire_of(c); if(side == 1) { w->srv_closed = true; if(on_server_close) on_server_close(w); } else w->dead = true; };
}
Proc *start_program(const std::string &name, int (*mainfn)(int, char **), std::vector<std::string> args) {
    args.insert(args.begin(), name);
    Proc *p = spawn(name, [mainfn, args] {
        char **argv = new char *[args.size() + 1]; for(size_t i = 0; i < args.size(); i++) argv[i] = strdup(args[i].c_str()); argv[args.size()] = nullptr;
        optind = 0; optarg = nullptr;
        int r = mainfn(args.size(), argv); kill_proc(cur->proc, false, r, "main returned"); });
    p->nopreempt = true;
    return p;
}
Proc *start_server(std::vector<std::string> extra, bool wait) {
    std::vector<std::string> a = {"-C", "/dev/null", "-S", SRV_SOCK}; a.insert(a.end(), extra.begin(), extra.end());
    server = start_program("tagserver", srv_main, a);
    Proc *s = server;
    if(wait) { // ready once the listening socket exists
        bool ok = wait_until([s] { return listening(std::string("unix:") + SRV_SOCK) || !s->alive; }, 30 * 1000000LL, "server start");
        if(!ok || !s->alive) violation("[start] the tag server did not start (%s)", s->alive ? "no listening socket" : s->death.c_str());
    }
    return server;
}
std::string memfile(const std::string &content) {
    int fd = memfd_create("simconf", 0); if(fd < 0) harness_error("memfd_create failed");
    if(write(fd, content.data(), content.size()) != (ssize_t)content.size()) harness_error("memfile");
    return "/proc/self/fd/" + std::to_string(fd);
}
Client *spawn_client(int id, const std::string &name, std::function<void(Client *)> fn) {
    Client *c = new Client; c->id = id; c->name = name; c->stream = ST_ACTOR0 + id;
    c->proc = spawn(name, [c, fn] { fn(c); });
    return c;
}
int Client::connect(int timeout_ms, bool tcp, int cachesize) {
    Client *c = this;
    cur->nopreempt++;
    c->ds = dax_init(c->name.c_str());
    if(!c->ds) { cur->nopreempt--; return -1000; }
    std::vector<std::string> a = {c->name, "-U", SRV_SOCK};
    if(timeout_ms) { a.push_back("-O"); a.push_back(std::to_string(timeout_ms)); }
    if(tcp) { a.push_back("-S"); a.push_back("REMOTE"); }
    if(cachesize) { a.push_back("-Z"); a.push_back(std::to_string(cachesize)); }
    char **argv = new char *[a.size() + 1]; for(size_t i = 0; i < a.size(); i++) argv[i] = strdup(a[i].c_str()); argv[a.size()] = nullptr;
    optind = 0; optarg = nullptr;
    dax_configure(c->ds, a.size(), argv, CFG_CMDLINE);
    cur->nopreempt--;
    int r = dax_connect(c->ds);
    c->wire = wire_of_proc(c->proc);
    c->up = r == 0;
    return r;
}
std::vector<uint8_t> enc(uint32_t cmd, const std::vector<uint8_t> &d) { B b; b.be32(d.size() + 8).be32(cmd).vec(d); return b.v; }
bool Raw::open(bool tcp) {
    cur->proc->noeintr = true;
    fd = sim_socket(tcp ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
    if(tcp) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(7777); if(sim_connect(fd, (struct sockaddr *)&a, sizeof a)) { sim_close(fd); fd = -1; return false; } }
    else { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, SRV_SOCK); if(sim_connect(fd, (struct sockaddr *)&a, sizeof a)) { sim_close(fd); fd = -1; return false; } }
    w = wire_of_proc(cur->proc); return true;
}
void Raw::send(const void *p, size_t n) { const char *b = (const char *)p; while(n) { ssize_t r = sim_write(fd, b, n); if(r < 0) { if(errno == EINTR) continue; closed = true; return; } b += r; n -= r; } }
void Raw::request(uint32_t cmd, const std::vector<uint8_t> &d, Op *op) { curop[cur] = op; auto v = enc(cmd, d); send(v.data(), v.size()); curop.erase(cur); }
bool Raw::recv(Frame &f, usec timeout) {
    usec end = now + timeout;
    for(;;) {
        while(in.size() >= 8) {
            uint32_t sz = be(in.data()); if(in.size() < 8 + (size_t)sz) break;
            f.size = sz; f.cmd = be(in.data() + 4); f.d.assign(in.begin() + 8, in.begin() + 8 + sz); in.erase(in.begin(), in.begin() + 8 + sz);
            if(f.cmd & 0x80000000u) { continue; }
            return true;
        }
        if(now >= end) return false;
        struct timeval tv; usec l = end - now; tv.tv_sec = l / 1000000; tv.tv_usec = l % 1000000; if(!tv.tv_sec && !tv.tv_usec) tv.tv_usec = 1;
        sim_setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        uint8_t b[4200]; ssize_t r = sim_read(fd, b, sizeof b);
        if(r > 0) in.insert(in.end(), b, b + r); else if(r == 0) { closed = true; return false; } else if(errno == EINTR) continue; else if(errno == EAGAIN) continue; else { closed = true; return false; }
    }
}
void Raw::close() { if(fd >= 0) sim_close(fd); fd = -1; }

void swarm_net(double k) {
    auto pick = [&](std::initializer_list<double> l) { std::vector<double> v(l); return v[choose(ST_CFG, v.size())] * k; };
    cfg.p_switch = std::min(0.9, pick({0.05, 0.02, 0.2, 0.5}));
    cfg.preempt_mean = (int)std::initializer_list<int>{0, 400, 60, 4000}.begin()[choose(ST_CFG, 4)];
    cfg.p_segment = pick({0, 0.05, 0.3}); cfg.p_delay = pick({0, 0.03, 0.2}); cfg.delay_max = 1 + choose(ST_CFG, 4);
    cfg.p_shortread = pick({0, 0.05, 0.3}); cfg.p_shortwrite = 0; cfg.p_stall = pick({0, 0, 0.002}); cfg.stall_max_ms = 50;
    static const size_t sb[] = {65536, 8192, 5000}; cfg.sockbuf = sb[choose(ST_CFG, 3)];
    simi::arm_preempt();
}
