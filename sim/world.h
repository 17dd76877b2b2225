// The simulated deployment: tag server process, module processes, wire taps, reference model glue.
#pragma once
#include "core.h"
#include "runner.h"
#include "opendax.h"
#include <cstring>
using namespace sim;

struct Frame { uint32_t size = 0, cmd = 0; std::vector<uint8_t> d; };
enum { RSP = 0x01000000, RERR = 0x02000000 };
struct Wire;
// one operation in flight; `at` runs at the instant the server emits the answer to one of its requests
struct Op {
    std::function<void(Wire *, const Frame &rq, const Frame &rsp)> at; int answers = 0; bool returned = false;
};
struct Ev { uint32_t type; int32_t idx; int32_t id; std::vector<uint8_t> data; };
struct Wire {
    Conn *c = nullptr; bool raw = false; int serial = 0; bool dead = false, srv_closed = false;
    std::vector<uint8_t> rq, rp; uint64_t accepted = 0, processed = 0; // server's bytes: taken by the socket / seen by us
    struct Rq { Frame f; Op *op; };
    std::deque<Rq> reqs; uint64_t nreq = 0, nrsp = 0, nevt = 0;
    bool registered = false; std::string modname;
    std::deque<Ev> got; std::deque<std::vector<Ev>> exp; uint64_t nmatched = 0;
    bool sendfailed = false;
};
extern std::function<void(Wire *, const Frame &rq, const Frame &rsp)> on_answer; // every answer (after the op's own hook)
extern std::function<void(Wire *, const Frame &rq, const Frame &rsp)> model_hook; // before the op's own hook
extern std::function<void(Wire *, const Ev &)> on_event_frame;
extern std::function<void(Wire *)> on_server_close; // server closed its side
extern std::function<void(Wire *)> on_new_wire;
Wire *wire_of(Conn *c);
Wire *wire_of_proc(Proc *p);   // latest connection of a process to the server

struct OpScope { // registers the current fiber's op
    Op *op; OpScope(std::function<void(Wire *, const Frame &, const Frame &)> at); ~OpScope();
};

extern Proc *server;
extern const char *SRV_SOCK;
void world_init();
Proc *start_server(std::vector<std::string> extra = {}, bool wait = true);
Proc *start_program(const std::string &name, int (*mainfn)(int, char **), std::vector<std::string> args);
std::string memfile(const std::string &content); // path of an in-memory file

struct Client {
    Proc *proc = nullptr; dax_state *ds = nullptr; int id = 0; std::string name; int stream = 0; Wire *wire = nullptr; bool up = false; bool crashed = false; bool neterr = false;
    int connect(int timeout_ms = 0, bool tcp = false, int cachesize = 0); // dax_init + configure + dax_connect
};
Client *spawn_client(int id, const std::string &name, std::function<void(Client *)> fn);

// raw connection from the current process
struct Raw { int fd = -1; Wire *w = nullptr; std::vector<uint8_t> in; std::deque<Ev> events;
    bool open(bool tcp = false); void send(const void *p, size_t n); void request(uint32_t cmd, const std::vector<uint8_t> &d, Op *op);
    bool recv(Frame &f, usec timeout); // next non-event frame; false on timeout/close
    bool closed = false; void close(); };
std::vector<uint8_t> enc(uint32_t cmd, const std::vector<uint8_t> &d);
struct B { std::vector<uint8_t> v; B &u8(uint8_t x) { v.push_back(x); return *this; } B &u16(uint16_t x) { return raw(&x, 2); } B &u32(uint32_t x) { return raw(&x, 4); } B &be32(uint32_t x) { x = __builtin_bswap32(x); return raw(&x, 4); }
    B &str(const std::string &s) { v.insert(v.end(), s.begin(), s.end()); v.push_back(0); return *this; } B &raw(const void *p, size_t n) { v.insert(v.end(), (const uint8_t *)p, (const uint8_t *)p + n); return *this; } B &vec(const std::vector<uint8_t> &x) { v.insert(v.end(), x.begin(), x.end()); return *this; } };
extern "C" { int srv_main(int, char **); int modbus_main(int, char **); int master_main(int, char **);
int sim_socket(int, int, int); int sim_connect(int, const struct sockaddr *, unsigned); ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); int sim_close(int); int sim_setsockopt(int, int, int, const void *, unsigned); }
void swarm_net(double scale = 1.0); // random network/scheduling fault configuration for the run
std::string hex(const std::vector<uint8_t> &v);
