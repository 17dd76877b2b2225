// Deterministic simulator core: fibers, virtual time, processes, sockets, locks, faults.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- choices
enum { ST_CFG = 0, ST_SCHED, ST_NET, ST_FAULT, ST_DISK, ST_ALLOC, ST_ACTOR0 = 16 };
uint32_t choose(int stream, uint32_t n);              // uniform in [0,n); 0 is the simplest
uint32_t choose0(int stream, uint32_t n, double p0);  // 0 with probability p0, else uniform 1..n-1
bool flip(int stream, double p);                      // true with probability p
bool more(int stream, double pstop);                  // op loop: marks a span, false = stop
uint64_t choose64(int stream);

// ---------------------------------------------------------------- faults
enum Fault { F_SEGMENT, F_DELAY, F_SHORTREAD, F_SHORTWRITE, F_EINTR, F_STALL, F_CONNRESET,
             F_CLIENTCRASH, F_SERVERCRASH, F_POWERLOSS, F_CLOCKJUMP, F_ALLOCFAIL, F_DISKERR,
             F_DISKFULL, F_TORNWRITE, F_LOSTWRITE, F_SPURIOUS, F_PREEMPT, F_GARBAGE, F_COALESCE,
             F_FORKFAIL, F_CHILDDEATH, F_CONNREFUSED, F_SIGNAL, F_DISKSHORT, F_PARTITION, NFAULT };
extern const char *fault_names[NFAULT];
void fired(Fault f, uint64_t n = 1);

// ---------------------------------------------------------------- config of one run (swarm)
struct Cfg {
    double p_switch = 0.1;      // switch to another runnable fiber at a scheduling point
    int preempt_mean = 0;       // mean instrumented edges between preemptions, 0 = off
    double p_segment = 0, p_delay = 0; int delay_max = 3; int base_latency_us = 20;
    double p_shortread = 0, p_shortwrite = 0, p_eintr = 0, p_spurious = 0;
    double p_stall = 0;         // stall a process at a scheduling point
    int stall_max_ms = 100;
    double p_allocfail = 0;
    size_t sockbuf = 65536;
    int64_t edge_budget = 400LL * 1000 * 1000;
    int64_t step_budget = 3 * 1000 * 1000;
    int64_t time_budget_us = 3600LL * 1000000;
};
extern Cfg cfg;

// ---------------------------------------------------------------- processes and fibers
struct Proc; struct Fiber; struct Conn;
typedef int64_t usec;

struct Fd {
    enum Kind { NEW, LISTEN, STREAM, FILEFD, SERIAL } kind = NEW;
    int domain = 0; std::string key;       // bound address
    Conn *conn = nullptr; int side = 0;
    usec rcvtimeo = 0, sndtimeo = 0; bool nonblock = false; bool connecting = false;
    std::deque<Conn *> backlog; int backlog_max = 16; bool listening = false; int inuse = 0; bool close_pending = false;
};

struct Proc {
    int id; int pid; std::string name; bool alive = true; int exit_code = -1; bool crashed = false;
    std::map<int, Fd *> fds; std::vector<Fd *> closing; std::vector<Fiber *> fibers; Fiber *main = nullptr;
    std::map<int, void (*)(int)> handlers; std::vector<int> pending;
    usec stall_until = 0; bool nopreempt = false; bool uninstr = false; bool allocfail = false;
    bool noeintr = false;
    char *strtok_save = nullptr; std::string death;
    int lowest_fd = 3; int maxfds = 1 << 30;
    std::vector<uint8_t> image; bool has_image = false;
};

struct Fiber {
    int id; std::string name; Proc *proc; char *stack = nullptr; size_t stksz = 0; void *sp = nullptr;
    std::function<void()> fn; bool started = false, done = false, blocked = false;
    std::function<bool()> pred; usec deadline = -1; bool rt_deadline = false; bool timed_out = false, interrupted = false;
    int saved_errno = 0; void *fake = nullptr; bool detached = false; int nopreempt = 0;
    void *ret = nullptr; bool interruptible = false;
    const char *why = "";
};

extern usec now;            // monotonic virtual time, us
extern usec rt_offset;      // CLOCK_REALTIME = now + rt_offset
extern Fiber *cur;
Proc *spawn(const std::string &name, std::function<void()> fn, size_t stk = 1 << 20);
Fiber *thread(Proc *p, const std::string &name, std::function<void()> fn, size_t stk = 1 << 20);
void kill_proc(Proc *p, bool crashed, int code = 0, const char *why = "");
void deliver_signal(Proc *p, int sig);
void clock_jump(usec delta);
// scheduling
void point(const char *what);                                     // possible context switch
bool block(std::function<bool()> pred, usec deadline, bool interruptible, const char *why, bool rt = false);
void sleep_us(usec d);                                            // harness sleep (not interruptible)
bool wait_until(std::function<bool()> pred, usec timeout, const char *why);
void run_loop();                                                  // until all root fibers are done
void mark_root(Fiber *f);                                         // run ends when all roots are done

// seam for programs that create processes (the master)
struct ForkSeam {
    std::function<int()> fork; std::function<int(const char *, char *const *)> exec; std::function<int(int, int *, int)> waitpid;
    std::function<int(int, int)> kill; std::function<FILE *(const char *, const char *)> fopen; std::function<void(FILE *)> fclose;
    std::function<void(int)> child_exit;      // the child of the last fork ended without exec
    std::function<void()> parent_resumed;     // just before fork() returns in the parent
    bool in_child = false; int uid = 0, gid = 0, ruid = 0; // of the process that is running
};
void save_globals(std::vector<uint8_t> &), load_globals(const std::vector<uint8_t> &); void signals_now();
extern ForkSeam forkseam;
// ---------------------------------------------------------------- connections
struct Seg { usec t; std::vector<uint8_t> d; };
struct Pipe {
    std::deque<uint8_t> avail; std::deque<Seg> inflight; size_t inflight_bytes = 0; usec last_t = 0;
    bool fin = false; usec fin_t = 0; bool rclosed = false; bool eof_seen = false;
    usec stall_until = 0; uint64_t written = 0, consumed = 0;
};
struct Conn {
    int id; std::string key; Pipe p[2];      // p[0]: connecting side -> accepting side, p[1]: reverse
    Proc *owner[2] = {nullptr, nullptr}; bool accepted = false, reset = false;
    int fdno[2] = {-1, -1};
    void *user = nullptr;
};
extern std::vector<Conn *> conns;
extern std::function<void(Conn *, int side, const uint8_t *, size_t)> on_write; // after write() accepted
extern std::function<void(Conn *, int side, const uint8_t *, size_t)> on_read;  // after read() consumed
extern std::function<void(Conn *, int side, const uint8_t *, size_t)> on_write_fail; // write() refused: peer gone or timed out
extern std::function<void(Conn *, int side, const uint8_t *, size_t)> on_offer; // at the start of write(), with all bytes offered
extern std::function<void(Conn *)> on_accept;
extern std::function<void(Conn *, int side)> on_close;
void conn_reset(Conn *c);
void conn_pump(Conn *c);
bool listening(const std::string &key);

// ---------------------------------------------------------------- results
[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool verbose;
void trace_line(const char *l); const char *trace_text();
void mix(uint64_t v);             // into the run hash
void state(uint64_t h);           // record an abstract state reached (distinct-state measure)
void count(const char *what, uint64_t n = 1);
void nontrivial();                // the run exercised the property's mechanism
#define CHECK(c, ...) do { if(!(c)) sim::violation(__VA_ARGS__); } while(0)

// every process has its own copy of the code under test's writable data (swapped on process switch)
void image_init();

// ---------------------------------------------------------------- disk (SQLite VFS)
void disk_init();
struct DiskCfg { double p_err = 0, p_full = 0, p_short = 0; bool dead = false; };
extern DiskCfg diskcfg;
void disk_power_loss();           // drop/tear unsynced writes
void disk_process_crash();        // written data survives, locks vanish
void disk_arm_crash(int nops, std::function<void()> fn); // call fn inside the nth following disk op
uint64_t disk_ops();
bool disk_has(const std::string &name);
}

// internal hooks used by runner
namespace simi {
void init_run(uint64_t seed, const std::map<int, std::vector<uint32_t>> *replay);
extern std::map<int, std::vector<uint32_t>> rec;
extern std::map<int, std::vector<uint32_t>> marks;
struct Out;
extern Out *out;
void finish(int status);
}
