#include "core.h"
#include "runout.h"
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <unistd.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

using namespace sim;

namespace sim {
const char *fault_names[NFAULT] = {"segment","delay","short_read","short_write","eintr","stall","conn_reset",
    "client_crash","server_crash","power_loss","clock_jump","alloc_fail","disk_error","disk_full","torn_write",
    "lost_write","spurious_wakeup","preempt","garbage_bytes","coalesce","fork_fail","child_death","conn_refused",
    "signal","disk_short","partition"};
Cfg cfg;
usec now = 1000; usec rt_offset = 1600000000LL * 1000000LL;
Fiber *cur = nullptr; bool verbose = false;
std::vector<Conn *> conns;
std::function<void(Conn *, int, const uint8_t *, size_t)> on_write, on_read, on_write_fail, on_offer;
std::function<void(Conn *)> on_accept;
std::function<void(Conn *, int)> on_close;
}
namespace simi {
std::map<int, std::vector<uint32_t>> rec, marks;
const std::map<int, std::vector<uint32_t>> *replay = nullptr;
std::map<int, size_t> rpos;
std::map<int, uint64_t> rng;
uint64_t seed0;
Out *out;
std::vector<Fiber *> fibers, roots;
std::vector<Proc *> procs;
uint64_t rhash = 1469598103934665603ULL, shash = 1469598103934665603ULL;
int64_t steps = 0, edges = 0, preempt_left = INT64_MAX, last_progress_edges = 0;
void *sched_sp = nullptr; void *sched_fake = nullptr; const void *sched_bottom = nullptr; size_t sched_size = 0;
int last_id = 0; bool ending = false;
enum { ST_PREEMPT = 6 };

static uint64_t next(int s) {
    auto it = rng.find(s);
    if(it == rng.end()) {
        uint64_t z = seed0 * 0x9E3779B97F4A7C15ULL + (uint64_t)(s + 1) * 0xD1B54A32D192ED03ULL;
        it = rng.emplace(s, z).first;
    }
    uint64_t z = (it->second += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static bool from_replay(int s, uint32_t &v) {
    if(!replay) return false;
    auto it = replay->find(s); size_t &p = rpos[s];
    v = (it == replay->end() || p >= it->second.size()) ? 0 : it->second[p];
    p++;
    return true;
}
void init_run(uint64_t seed, const std::map<int, std::vector<uint32_t>> *r) { seed0 = seed; replay = r; }
}
using namespace simi;

namespace sim {
static inline uint32_t record(int s, uint32_t v) { rec[s].push_back(v); mix(v + 0x51 + s); return v; }
uint32_t choose(int s, uint32_t n) {
    if(n <= 1) return 0;
    uint32_t v;
    if(from_replay(s, v)) v %= n; else v = (uint32_t)(next(s) % n);
    return record(s, v);
}
uint64_t choose64(int s) {
    uint64_t a = 0; for(int i = 0; i < 4; i++) a = (a << 16) | choose(s, 65536);
    return a;
}
static double unit(int s) { return (double)(next(s) >> 11) / 9007199254740992.0; }
uint32_t choose0(int s, uint32_t n, double p0) {
    if(n <= 1) return 0;
    uint32_t v;
    if(from_replay(s, v)) v %= n;
    else v = unit(s) < p0 ? 0 : 1 + (uint32_t)(next(s) % (n - 1));
    return record(s, v);
}
bool flip(int s, double p) {
    if(p <= 0) return false;
    uint32_t v;
    if(from_replay(s, v)) v = v ? 1 : 0; else v = unit(s) < p ? 1 : 0;
    return record(s, v) != 0;
}
bool more(int s, double pstop) {
    marks[s].push_back(rec[s].size());
    uint32_t v;
    if(from_replay(s, v)) v = v ? 1 : 0; else v = unit(s) < pstop ? 0 : 1;
    return record(s, v) != 0;
}
void fired(Fault f, uint64_t n) { out->faults[f] += n; }
void mix(uint64_t v) { rhash = (rhash ^ v) * 1099511628211ULL; rhash ^= rhash >> 29; }
void state(uint64_t h) { if(out->nstates < RO_STATES) out->states[out->nstates++] = h; }
void nontrivial() { out->nontrivial = 1; }
void count(const char *w, uint64_t n) {
    for(int i = 0; i < RO_CNT; i++) {
        if(!out->cname[i][0]) { strncpy(out->cname[i], w, sizeof(out->cname[i]) - 1); }
        if(!strcmp(out->cname[i], w)) { out->cval[i] += n; return; }
    }
}
// the trace lives outside the heap so that tracing cannot change the execution
static char *tbuf = nullptr; static size_t tlen = 0; enum { TMAX = 64 << 20 };
void trace_line(const char *l) {
    if(!tbuf) tbuf = (char *)mmap(nullptr, TMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t n = strlen(l); if(tlen + n + 2 >= TMAX) return;
    memcpy(tbuf + tlen, l, n); tlen += n; tbuf[tlen++] = '\n';
}
const char *trace_text() { return tbuf ? tbuf : ""; }
void trace(const char *fmt, ...) {
    if(!verbose) return;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    char l[1200]; snprintf(l, sizeof l, "[%10.6f] %-14s %s", now / 1e6, cur ? cur->name.c_str() : "-", b);
    trace_line(l);
}
}
namespace simi {
void finish(int status) {
    ending = true;
    out->status = status; out->hash = rhash; out->shash = shash; out->steps = steps; out->edges = edges; out->sim_us = now;
    runner_child_exit();
}
}
namespace sim {
void violation(const char *fmt, ...) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    strncpy(out->msg, b, sizeof(out->msg) - 1);
    trace("VIOLATION: %s", b);
    finish(1); _exit(1);
}
void harness_error(const char *fmt, ...) {
    char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    strncpy(out->msg, b, sizeof(out->msg) - 1);
    finish(3); _exit(3);
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_ctx_switch(void **save, void *load);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
.section .note.GNU-stack,"",@progbits
.text
)");

static void yield_to_sched(bool dying = false) {
    Fiber *f = cur;
    f->saved_errno = errno;
    __sanitizer_start_switch_fiber(dying ? nullptr : &f->fake, sched_bottom, sched_size);
    sim_ctx_switch(&f->sp, sched_sp);
    __sanitizer_finish_switch_fiber(f->fake, &sched_bottom, &sched_size);
    errno = f->saved_errno;
}
static void fiber_entry() {
    __sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
    Fiber *f = cur;
    f->fn();
    f->done = true;
    if(f == f->proc->main && f->proc->alive) kill_proc(f->proc, false, 0, "returned from main");
    yield_to_sched(true);
    abort();
}
// ---- per-process copies of the writable sections of the code under test
extern "C" { extern char __start_simdata[] __attribute__((weak)), __stop_simdata[] __attribute__((weak)), __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak)); }
static std::vector<uint8_t> pristine; static Proc *image_proc = nullptr; static size_t dsz, bsz;
static inline void rawcopy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void image_save(std::vector<uint8_t> &v) { v.resize(dsz + bsz); rawcopy(v.data(), __start_simdata, dsz); rawcopy(v.data() + dsz, __start_simbss, bsz); }
static void image_load(const std::vector<uint8_t> &v) { rawcopy(__start_simdata, v.data(), dsz); rawcopy(__start_simbss, v.data() + dsz, bsz); }
void image_init() { dsz = __stop_simdata - __start_simdata; bsz = __stop_simbss - __start_simbss; image_save(pristine); if(getenv("SIM_DEBUG")) fprintf(stderr, "image %zu + %zu bytes\n", dsz, bsz); }
static void image_switch(Proc *p) {
    if(p == image_proc) return;
    if(image_proc) { if(image_proc->alive) image_save(image_proc->image); else image_proc->image.clear(); }
    if(p->has_image) image_load(p->image); else { image_load(pristine); p->has_image = true; }
    image_proc = p;
}
void save_globals(std::vector<uint8_t> &v) { image_save(v); }
void load_globals(const std::vector<uint8_t> &v) { image_load(v); }
static void switch_to(Fiber *f) {
    image_switch(f->proc);
    if(!f->started) {
        f->started = true;
        f->stack = (char *)mmap(nullptr, f->stksz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f->stack, 4096, PROT_NONE);
        f->stack += 4096;
        void **sp = (void **)(f->stack + f->stksz);
        *--sp = nullptr; // alignment
        *--sp = (void *)fiber_entry;
        for(int i = 0; i < 6; i++) *--sp = nullptr;
        f->sp = sp;
    }
    cur = f;
    shash = (shash ^ (uint64_t)f->id) * 1099511628211ULL;
    mix(0x1000 + f->id);
    __sanitizer_start_switch_fiber(&sched_fake, f->stack, f->stksz);
    sim_ctx_switch(&sched_sp, f->sp);
    __sanitizer_finish_switch_fiber(sched_fake, nullptr, nullptr);
    cur = nullptr;
    if(f->done && f->proc->fibers.size() > 64 && f->stack) { __asan_unpoison_memory_region(f->stack, f->stksz); munmap(f->stack - 4096, f->stksz + 4096); f->stack = nullptr; } // a process with very many threads
}
Fiber *thread(Proc *p, const std::string &name, std::function<void()> fn, size_t stk) {
    Fiber *f = new Fiber; f->id = ++last_id; f->name = name; f->proc = p; f->fn = fn; f->stksz = stk;
    fibers.push_back(f); p->fibers.push_back(f);
    if(!p->main) p->main = f;
    return f;
}
Proc *spawn(const std::string &name, std::function<void()> fn, size_t stk) {
    Proc *p = new Proc; p->id = procs.size(); p->pid = 1000 + p->id; p->name = name;
    procs.push_back(p);
    thread(p, name, fn, stk);
    return p;
}
void mark_root(Fiber *f) { roots.push_back(f); }

static void run_signals() {
    Proc *p = cur->proc;
    while(!p->pending.empty()) {
        int s = p->pending.front(); p->pending.erase(p->pending.begin());
        auto h = p->handlers.find(s);
        if(h != p->handlers.end() && h->second) { trace("signal %d handler", s); cur->nopreempt++; h->second(s); cur->nopreempt--; }
    }
}
void signals_now() { if(cur == cur->proc->main && cur->proc->alive) run_signals(); }
static bool runnable(Fiber *f) {
    if(f->done || !f->proc->alive) return false;
    if(f->proc->stall_until > now) return false;
    if(!f->blocked) return true;
    if(f->pred && f->pred()) return true;
    if(f->deadline >= 0 && f->deadline <= now) return true;
    if(f->interruptible && f == f->proc->main && !f->proc->pending.empty()) return true;
    return false;
}
static int any_other_runnable() {
    int n = 0;
    for(auto f : fibers) if(f != cur && runnable(f)) n++;
    return n;
}
static bool skip_self = false;
static void budget() {
    if(steps > cfg.step_budget) violation("no progress: step budget exhausted (last fiber %s %s)", cur ? cur->name.c_str() : "-", cur ? cur->why : "");
}
void point(const char *what) {
    if(!cur || ending || forkseam.in_child) return;
    steps++; now += 1; budget();
    if(cur->proc->alive && cur == cur->proc->main && !cur->proc->pending.empty()) run_signals();
    if(cur->nopreempt || cur->proc->nopreempt) return;
    if(cfg.p_stall > 0 && flip(ST_FAULT, cfg.p_stall)) {
        usec d = 1000 * (1 + choose(ST_FAULT, cfg.stall_max_ms));
        cur->proc->stall_until = now + d; fired(F_STALL); trace("process %s stalled %lld us", cur->proc->name.c_str(), (long long)d);
        yield_to_sched(); return;
    }
    if(flip(ST_SCHED, cfg.p_switch) && any_other_runnable()) { skip_self = true; yield_to_sched(); }
}
bool block(std::function<bool()> pred, usec deadline, bool interruptible, const char *why, bool rt) {
    if(forkseam.in_child) violation("[child] a new process waits (%s) instead of running its program", why);
    Fiber *f = cur; f->timed_out = f->interrupted = false; f->why = why;
    point(why);
    f->deadline = deadline; f->rt_deadline = rt;
    bool res = false;
    for(;;) {
        if(pred && pred()) { res = true; break; }
        if(interruptible && f == f->proc->main && !f->proc->pending.empty()) { run_signals(); f->interrupted = true; break; }
        if(f->deadline >= 0 && f->deadline <= now) { f->timed_out = true; break; }
        f->blocked = true; f->pred = pred; f->interruptible = interruptible;
        yield_to_sched();
        f->blocked = false; f->pred = nullptr; f->interruptible = false;
    }
    f->deadline = -1; f->rt_deadline = false; f->why = "";
    return res;
}
void sleep_us(usec d) { usec e = now + d; block(nullptr, e, false, "sleep"); }
bool wait_until(std::function<bool()> pred, usec timeout, const char *why) { return block(pred, timeout < 0 ? -1 : now + timeout, false, why); }
void clock_jump(usec d) {
    rt_offset += d; fired(F_CLOCKJUMP); trace("clock jump %lld us", (long long)d);
    for(auto f : fibers) if(!f->done && f->blocked && f->rt_deadline && f->deadline >= 0) { f->deadline -= d; if(f->deadline < 0) f->deadline = 0; }
}
void deliver_signal(Proc *p, int sig) {
    if(!p->alive) return;
    fired(F_SIGNAL);
    auto h = p->handlers.find(sig);
    if(h == p->handlers.end() || h->second == nullptr) { // default action: terminate for the ones we use
        if(sig == 13 || sig == 17) return;
        kill_proc(p, true, 128 + sig, "signal"); return;
    }
    if(h->second == (void (*)(int))1) return;
    for(int s : p->pending) if(s == sig) return; // a pending signal is not queued again
    p->pending.push_back(sig);
}
void kill_proc(Proc *p, bool crashed, int code, const char *why) {
    if(!p->alive) return;
    trace("process %s ends (%s)%s", p->name.c_str(), why, crashed ? " CRASH" : "");
    p->alive = false; p->crashed = crashed; p->exit_code = code; p->death = why;
    std::vector<Fd *> open; for(auto &kv : p->fds) open.push_back(kv.second);
    for(auto f : p->closing) if(f->close_pending && f->inuse) open.push_back(f); // closed while another thread was using it
    for(Fd *fd : open) {
        if(fd->kind == Fd::STREAM && fd->conn) {
            Conn *c = fd->conn; int s = fd->side;
            c->p[s].fin = true; c->p[s].fin_t = std::max(c->p[s].last_t, now); c->p[1 - s].rclosed = true;
            if(on_close) on_close(c, s);
        } else if(fd->kind == Fd::LISTEN) {
            for(auto c : fd->backlog) { c->p[1].fin = true; c->p[1].fin_t = now; c->p[0].rclosed = true; c->reset = true; }
        }
    }
    p->fds.clear();
    for(auto f : p->fibers) f->done = true;
    if(cur && cur->proc == p) { yield_to_sched(true); abort(); }
}
static usec next_time() {
    usec t = -1;
    auto add = [&](usec x) { if(x > now && (t < 0 || x < t)) t = x; };
    for(auto f : fibers) {
        if(f->done || !f->proc->alive) continue;
        if(f->proc->stall_until > now) { add(f->proc->stall_until); continue; }
        if(f->blocked && f->deadline >= 0) add(f->deadline);
    }
    for(auto c : conns) for(int i = 0; i < 2; i++) {
        if(!c->p[i].inflight.empty()) add(c->p[i].inflight.front().t);
        if(c->p[i].fin && !c->p[i].eof_seen) add(c->p[i].fin_t);
    }
    return t;
}
void run_loop() {
    while(!ending) {
        bool alldone = true;
        for(auto f : roots) if(!f->done) alldone = false;
        if(alldone) return;
        std::vector<Fiber *> r;
        Fiber *self = skip_self ? fibers.empty() ? nullptr : nullptr : nullptr; (void)self;
        static Fiber *lastf = nullptr;
        size_t start = 0;
        for(size_t i = 0; i < fibers.size(); i++) if(fibers[i] == lastf) { start = i + 1; break; }
        for(size_t k = 0; k < fibers.size(); k++) {
            Fiber *f = fibers[(start + k) % fibers.size()];
            if(skip_self && f == lastf) continue;
            if(runnable(f)) r.push_back(f);
        }
        if(r.empty() && skip_self && lastf && runnable(lastf)) r.push_back(lastf);
        skip_self = false;
        if(r.empty()) {
            usec t = next_time();
            if(t < 0) {
                std::string s; for(auto f : fibers) if(!f->done && f->proc->alive) s += f->name + "(" + f->why + ") ";
                violation("deadlock: nothing can run and no timer is pending; waiting: %s", s.c_str());
            }
            now = t;
            if(now > cfg.time_budget_us) {
                std::string s; for(auto f : roots) if(!f->done) s += f->name + "(" + f->why + ") ";
                violation("no progress: simulated time budget exhausted; unfinished: %s", s.c_str());
            }
            continue;
        }
        Fiber *f = r[choose(ST_SCHED, r.size())];
        lastf = f;
        switch_to(f);
        // drop finished fibers' bookkeeping lazily
        if(fibers.size() > 64) {
            std::vector<Fiber *> keep; for(auto x : fibers) if(!x->done && x->proc->alive) keep.push_back(x);
            fibers.swap(keep);
        }
    }
}

// ---------------------------------------------------------------- connections
void conn_pump(Conn *c) {
    for(int i = 0; i < 2; i++) {
        Pipe &p = c->p[i];
        while(!p.inflight.empty() && p.inflight.front().t <= now && p.stall_until <= now) {
            auto &d = p.inflight.front().d; p.avail.insert(p.avail.end(), d.begin(), d.end()); p.inflight_bytes -= d.size(); p.inflight.pop_front();
        }
    }
}
void conn_reset(Conn *c) {
    if(c->reset) return;
    c->reset = true; fired(F_CONNRESET); trace("conn %d reset", c->id);
    for(int i = 0; i < 2; i++) { c->p[i].inflight.clear(); c->p[i].inflight_bytes = 0; }
}
}

// instrumented code calls this on every edge
static inline void cov(uintptr_t pc) { simi::out->cov[(pc ^ (pc >> 15)) & (RO_COV - 1)] = 1; }
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
    if(!cur || ending) return;
    edges++;
    cov((uintptr_t)__builtin_return_address(0));
    if(--preempt_left > 0) return;
    if(edges > cfg.edge_budget) { Fiber *f = cur; violation("no progress: %s executes without end", f->name.c_str()); }
    if(!cfg.preempt_mean) { preempt_left = cfg.edge_budget - edges + 1; return; }
    uint32_t v = choose0(ST_PREEMPT, 2 * cfg.preempt_mean + 1, 0.0);
    preempt_left = v ? v : cfg.edge_budget - edges + 1;
    if(cur->nopreempt || cur->proc->nopreempt) return;
    steps++; budget();
    int e = errno;
    if(any_other_runnable()) { fired(F_PREEMPT); skip_self = true; yield_to_sched(); }
    errno = e;
}
namespace simi {
void arm_preempt() { preempt_left = cfg.preempt_mean ? 1 + (int64_t)choose(ST_PREEMPT, 2 * cfg.preempt_mean) : cfg.edge_budget; }
}
