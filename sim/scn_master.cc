// C19: the master: starting, supervising and restarting processes
#include "api.h"
#include "runout.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <sys/wait.h>
extern "C" int master_main(int, char **);
static const char *REALC = "master (all of src/master) with its Lua configuration, logger, Lua; the child side of fork() up to exec()";
static const char *STUBC = "fork/exec/waitpid/kill, /proc, clocks, sleeps and signals are simulated; the supervised programs are models that live, die, misbehave and react to signals";
namespace {
enum { ST_M = ST_ACTOR0 };
const usec MS = 1000, S = 1000000, SLACK = 3 * S;
struct Slot {
    std::string name, path, args; std::vector<std::string> argv; bool restart = false; int delay = 0, uid = -1, gid = -1, xuid = 0, xgid = 0; int mem = 0; double cpu = 0; int mood = 0; double p_hog = 0;
    int starts = 0; int live = -1; usec started = -1, died = -1, noticed = -1, deadline = -1; long lo = 0, hi = 0; int execfail = 0;
};
struct Kid { int pid, slot = -1; usec born = 0, dies = -1; bool dead = false, reaped = false, stubborn = false, asked = false, termed = false, killed = false; int status = 0; usec hog = -1, quit_by = -1, kill_by = -1; bool cpuhog = false; };
std::vector<Slot *> sl; std::vector<Kid *> kids; Proc *mp; int attempts, nextpid; double p_forkfail, p_execfail, p_instant, p_procfail; bool quitting, grouped, faults, kick; int openfiles; std::vector<usec> attempt_t; usec start_end; std::deque<int> oldpids; bool backgnd; int bgforks; usec last_exec;
uint32_t R(uint32_t n) { return choose(ST_M, n); } bool P(double p) { return flip(ST_M, p); }
long nextd(long d) { return d == 0 ? 100 : std::min(60000L, d * 2); }
Kid *find(int pid) { for(size_t i = kids.size(); i--;) if(kids[i]->pid == pid) return kids[i]; return nullptr; }
usec awake() { return std::max(now, mp->stall_until); }
const char *who(int s) { return s < 0 ? "?" : sl[s]->name.c_str(); }
void die(Kid *k, int status, const char *why) {
    if(k->dead) return;
    k->dead = true; k->status = status; fired(F_CHILDDEATH); count(why); trace("process %d (%s) dies: %s", k->pid, who(k->slot), why);
    if(k->slot >= 0) { Slot *s = sl[k->slot]; if(s->live == k->pid) {
        s->live = -1; s->died = now; s->noticed = std::max(awake(), start_end < 0 ? now : start_end) + 1100 * MS; if(now - s->started > 60 * S) { count("deaths after a healthy minute"); }
        long hi = s->hi; if(now - s->started > 60 * S) { hi = 0; s->hi = 0; s->lo = 0; } else if(s->noticed - s->started > 60 * S || start_end < 0) s->lo = 0;
        s->deadline = start_end < 0 ? -1 : s->noticed + hi * MS + SLACK; } }
    if(mp->alive) deliver_signal(mp, SIGCHLD);
}
void life(Kid *k) { Slot *s = sl[k->slot]; usec t;
    switch(s->mood) {
    case 0: t = -1; break;
    case 1: t = R(3) ? R(100) * MS : R(4) * S; break;                          // keeps crashing
    case 2: t = 1 + R(5) ? R(20000) * MS : -1; break;
    case 3: t = 50 * S + R(20000) * MS; break;                                    // around the minute
    default: t = R(3) ? R(1000) * MS : R(2) ? 61 * S + R(30000) * MS : -1; }
    if(!faults) t = -1;
    k->dies = t < 0 ? -1 : now + t;
    k->stubborn = P(0.3);
    if(faults && (s->mem || s->cpu > 0) && P(s->p_hog)) { k->hog = now + (R(2) ? 0 : R(60000) * MS); k->cpuhog = s->cpu > 0 && (!s->mem || R(2)); if(k->cpuhog) k->hog = now; if(p_procfail == 0) k->quit_by = k->hog + (k->cpuhog ? 210 : 135) * S; count("processes that exceed a limit"); }
}
int do_fork() {
    if(backgnd && bgforks < 2) { bgforks++; return 0; } // going to the background: continue as the child
    mp->nopreempt = false;
    int n = attempts++; attempt_t.push_back(now); if(n + 1 == (int)sl.size()) start_end = now + sl[n]->delay * MS;
    if(n < (int)sl.size() && n > 0 && now < attempt_t[n - 1] + sl[n - 1]->delay * MS - 2 * MS) violation("[start-delay] process %s was started %lld ms after %s, whose delay is %d ms", who(n), (long long)(now - attempt_t[n - 1]) / MS, who(n - 1), sl[n - 1]->delay);
    if(n + 1 == (int)sl.size()) for(auto s : sl) if(s->live < 0) s->deadline = start_end + (s->starts ? s->hi * MS : 0) + 1100 * MS + SLACK, s->noticed = start_end + 1100 * MS;
    if(faults && flip(ST_FAULT, p_forkfail)) { fired(F_FORKFAIL); trace("fork fails");
        for(auto s : sl) if(s->live < 0) { s->hi = nextd(s->hi); if(start_end >= 0) s->deadline = std::max(s->deadline, std::max(start_end, awake()) + s->hi * MS + 1100 * MS + SLACK); }
        errno = R(2) ? EAGAIN : ENOMEM; return -1; }
    Kid *k = new Kid; k->born = now;
    if(!oldpids.empty() && R(3)) { k->pid = oldpids.front(); oldpids.pop_front(); count("process ids used again"); } else k->pid = nextpid++;
    kids.push_back(k); return k->pid;
}
int do_exec(const char *f, char *const a[]) {
    Kid *k = kids.back(); int si = -1; for(size_t i = 0; i < sl.size(); i++) if(sl[i]->path == f) si = i;
    if(si < 0) violation("[exec] started a program that is not configured: %s", f);
    Slot *s = sl[si]; k->slot = si; size_t n = 0;
    for(; a[n]; n++) if(n >= s->argv.size() || s->argv[n] != a[n]) violation("[args] process %s was started with argument %zu = \"%s\", configured is \"%s\"", who(si), n, a[n], n < s->argv.size() ? s->argv[n].c_str() : "(none)");
    if(n != s->argv.size()) violation("[args] process %s was started with %zu arguments instead of %zu", who(si), n, s->argv.size());
    if(forkseam.uid != s->xuid || forkseam.gid != s->xgid) violation("[user] process %s was started as user %d group %d, configured is %d %d", who(si), forkseam.uid, forkseam.gid, s->xuid, s->xgid);
    if(s->live >= 0) violation("[twice] process %s was started while it is running as %d", who(si), s->live);
    if(s->starts) {
        if(!s->restart) violation("[restarted] process %s is not configured to be restarted, but was", who(si));
        long since = (now - s->died) / MS; count("restarts"); nontrivial();
        if(since < s->lo - 5) violation("[too-soon] process %s was restarted %ld ms after it died (ran %lld ms), the delay should be %ld ms or more", who(si), since, (long long)(s->died - s->started) / MS, s->lo);
        if(s->deadline >= 0 && now > s->deadline) violation("[too-late] process %s was restarted %ld ms after it died, the delay should be %ld ms", who(si), since, s->hi);
        if(s->lo >= 60000) count("restarts with the longest delay"); if(s->lo == 0 && s->starts > 2) count("restarts after the delay was reset");
        s->lo = nextd(s->lo); s->hi = nextd(s->hi);
    } else if(attempts > (int)sl.size() && !s->restart) violation("[restarted] process %s is not configured to be restarted, but its start was tried again", who(si));
    else if(attempts > (int)sl.size()) { s->lo = 0; s->hi = nextd(s->hi); count("first starts after failed ones"); }
    s->starts++; s->started = now; s->live = k->pid; s->deadline = -1; last_exec = now; count("process starts"); trace("exec %s as %d (start %d)", f, k->pid, s->starts);
    if(faults && flip(ST_FAULT, p_execfail)) { fired(F_FORKFAIL); count("exec failures"); k->dies = -2; return R(2) ? ENOENT : EACCES; }
    life(k); kick = true; return 0;
}
int do_waitpid(int p, int *st, int opt) {
    for(;;) {
        std::vector<Kid *> z; bool any = false; for(auto k : kids) if(!k->reaped && (p == -1 || p == k->pid)) { any = true; if(k->dead) z.push_back(k); }
        if(!z.empty()) { Kid *k = z[R(z.size())]; k->reaped = true; if(st) *st = k->status; oldpids.push_back(k->pid); trace("reaped %d (%s)", k->pid, who(k->slot)); return k->pid; }
        if(!any) { errno = ECHILD; return -1; }
        if(opt & WNOHANG) return 0;
        if(!block([p] { for(auto k : kids) if(k->dead && !k->reaped && (p == -1 || p == k->pid)) return true; return false; }, -1, true, "waitpid")) { errno = EINTR; return -1; }
    }
}
void tell(Kid *k, int sig) {
    if(sig == SIGKILL) { k->killed = true; die(k, SIGKILL, "deaths by SIGKILL"); return; }
    if(sig == SIGTERM) { k->termed = true; }
    if(!k->asked) { k->asked = true; if(p_procfail == 0) k->kill_by = now + 135 * S; }
    if(!k->stubborn) { k->dies = now + R(3000) * MS; kick = true; }
}
int do_kill(int pid, int sig) {
    trace("kill(%d, %d)", pid, sig);
    if(pid == mp->pid) return 0;
    if(pid < 0) violation("[kill] the master called kill(%d, %d)", pid, sig);
    if(pid == 0) {
        if(!quitting) violation("[kill] the master sent signal %d to its whole process group, itself included, without being told to quit", sig);
        grouped = true; for(auto k : kids) if(!k->dead) k->termed = true; deliver_signal(mp, sig); return 1;
    }
    Kid *k = find(pid); if(!k || k->reaped) violation("[kill] the master sent signal %d to %d, which is not its process%s", sig, pid, k ? " any more" : "");
    if(sig == 0) return k->dead ? 1 : 1;
    if(k->dead) return 1;
    if(!quitting) {
        if(k->hog < 0 || now < k->hog) violation("[kill] the master sent signal %d to process %s, which is within its limits", sig, who(k->slot));
        if(sig == SIGKILL && !k->asked) violation("[kill] the master killed process %s without asking it to quit first", who(k->slot));
        count(sig == SIGKILL ? "processes killed" : "processes asked to quit"); nontrivial();
    }
    tell(k, sig); return 1;
}
FILE *memf(const std::string &t) { char *b = strdup(t.c_str()); openfiles++; FILE *f = fmemopen(b, std::max<size_t>(1, t.size()), "r"); return f; }
FILE *do_fopen(const char *path, const char *) {
    if(openfiles > 12) violation("[leak] the master has %d files open at once and opens %s", openfiles, path);
    int pid; char x[600]; unsigned long up = (now + 5000 * S) / (10 * MS);
    if(faults && flip(ST_FAULT, p_procfail)) { errno = EMFILE; return nullptr; }
    if(!strcmp(path, "/proc/stat")) { snprintf(x, sizeof x, "cpu  %lu 0 %lu %lu 0 0 0 0 0 0\ncpu0 %lu 7 %lu %lu 5 0 0 0 0 0\ncpu1 1 2 3 4 5 6 7 0 0 0\n", up * 2, up, up * 4, up / 8, up / 8, up - up / 8 * 2 - 7); return memf(x); }
    if(sscanf(path, "/proc/%d/stat", &pid) == 1) {
        Kid *k = find(pid); if(!k || k->reaped) { errno = ENOENT; return nullptr; }
        count("process statistics read"); if(faults && flip(ST_FAULT, p_procfail)) { fired(F_SHORTREAD); return memf("12 (x"); }
        Slot *s = k->slot >= 0 ? sl[k->slot] : nullptr; bool hog = k->hog >= 0 && now >= k->hog && !k->dead; unsigned long ut = k->cpuhog ? (now - k->born) / (10 * MS) * 95 / 100 : 0; long rss = !s || !s->mem ? 100000 : hog && !k->cpuhog ? s->mem * 3 / 4 + 10 : s->mem / 16; if(k->dead) rss = 0;
        const char *base = strrchr(s ? s->path.c_str() : "x", '/'); base = base ? base + 1 : "x";
        snprintf(x, sizeof x, "%d (%.15s) %c 1 %d %d 0 -1 4194560 2000 0 3 0 %lu %lu 11 12 20 0 4 0 %lu 99999999 %ld 18446744073709551615 1 1 0 0 0 0 0 4096 81928 0 0 0 17 3 0 0 0 0 0\n", pid, base, k->dead ? 'Z' : 'S', pid, pid, ut / 2, ut - ut / 2, up, rss);
        return memf(x);
    }
    errno = ENOENT; return nullptr;
}
void setup() {
    sl.clear(); kids.clear(); attempts = 0; nextpid = 5000 + R(64); quitting = grouped = false; faults = true; kick = false; openfiles = 0; attempt_t.clear(); start_end = -1; oldpids.clear(); bgforks = 0; last_exec = 0; forkseam = ForkSeam();
    int n = R(4) ? 1 + R(8) : 11 + R(14); std::string lua = R(2) ? "logger = \"console\"\n" : ""; double pd = R(2) ? 0.3 : 0; int mood = R(3) ? (int)R(6) : -1; bool limits = R(2); double hogs = R(2) ? 0.6 : 0.1; bool users = R(3) == 2;
    backgnd = P(0.15);
    if(backgnd) lua += "daemonize = true\n";
    for(int i = 0; i < n; i++) {
        Slot *s = new Slot; sl.push_back(s); s->name = "p" + std::to_string(i); s->path = R(8) ? "/opt/dax/bin/prog" + std::to_string(i) : "/opt/my dax/prog (x " + std::to_string(i) + ") y";
        s->restart = R(4) != 3; s->mood = mood >= 0 && mood < 5 && R(4) ? mood : (int)R(5); s->argv.push_back(s->path);
        bool hasargs = R(4) != 3; if(hasargs) { int k = R(5) ? R(4) : R(40); s->args = R(5) ? "" : " "; for(int j = 0; j < k; j++) { std::string w; static const char *ws[] = {"-C", "-v", "/etc/opendax/x.conf", "--port=502", "a", "very_long_argument_very_long_argument_very_long_argument_very_long_argument", "-S", "/tmp/opendax", "\\\\", "$HOME", "*"}; w = ws[R(11)]; s->argv.push_back(w == "\\\\" ? "\\" : w); s->args += w; s->args += R(6) ? " " : "   "; } if(!s->args.empty() && R(2)) while(!s->args.empty() && s->args.back() == ' ') s->args.pop_back(); }
        char b[1000]; snprintf(b, sizeof b, "add_process({name=\"%s\", path=\"%s\"", s->name.c_str(), s->path.c_str()); lua += b;
        if(hasargs) lua += ", args=\"" + s->args + "\"";
        if(s->restart) lua += ", restart=true"; else if(R(2)) lua += ", restart=false";
        if(pd > 0 && P(pd)) { s->delay = R(3) ? 1 + R(300) : R(4000); lua += ", delay=" + std::to_string(s->delay); }
        if(limits && R(2)) { s->mem = 1000 + R(5000); lua += ", mem=" + std::to_string(s->mem); s->p_hog = hogs; if(s->mood == 1) s->mood = R(2) ? 0 : 4; }
        if(limits && R(3) == 2) { s->cpu = 0.5; lua += ", cpu=0.5"; s->p_hog = hogs; }
        if(users) { if(R(2)) { s->uid = R(3) ? 500 + R(50) : 0; lua += ", uid=" + std::to_string(s->uid); } else if(R(2)) { lua += ", user=\"root\""; s->uid = 0; }
            if(R(2)) { s->gid = R(3) ? 600 + R(50) : 0; lua += ", gid=" + std::to_string(s->gid); } else if(R(2)) { lua += ", group=\"root\""; s->gid = 0; } }
        s->xuid = std::max(0, s->uid); s->xgid = std::max(0, s->gid); if(R(10) == 9) lua += ", env=\"A=1\"";
        lua += "})\n";
    }
    p_forkfail = R(3) == 2 ? 0.05 + 0.3 * R(3) : 0; p_execfail = R(4) == 3 ? 0.1 * (1 + R(4)) : 0; p_instant = R(3) ? 0.05 * R(4) : 0.6; p_procfail = R(3) == 2 ? 0.2 : 0;
    forkseam.fork = do_fork; forkseam.exec = do_exec; forkseam.waitpid = do_waitpid; forkseam.kill = do_kill; forkseam.fopen = do_fopen; forkseam.fclose = [](FILE *) { if(openfiles) openfiles--; };
    forkseam.child_exit = [](int code) { Kid *k = kids.back(); trace("the child exits %d", code); k->dies = now; k->status = code << 8; };
    forkseam.parent_resumed = [] { Kid *k = kids.back(); if(k->dies == now) die(k, k->status, "deaths before fork returned"); else if(faults && flip(ST_FAULT, p_instant)) die(k, 1 << 8, "deaths before fork returned"); if(k->dead && R(2)) signals_now(); };
    std::vector<std::string> a = {"-C", memfile(lua)}; if(R(3) == 2) a.push_back("-v");
    trace("configuration: %s", lua.c_str());
    mp = start_program("master", master_main, a);
}
void check_alive() { if(!mp->alive && !quitting) violation("[exit] the master ended (%s)", mp->death.c_str()); }
void overdue() {
    check_alive(); if(!mp->alive) return;
    for(auto s : sl) if(s->restart && s->live < 0 && s->deadline >= 0 && now > s->deadline) violation(s->starts ? "[lost] process %s died at %.3f s and has not been started again (delay %ld ms)" : "[lost] process %s has never been started (%.3f s, delay %ld ms)", s->name.c_str(), s->died / 1e6, s->hi);
    if(start_end < 0 && attempts && now > attempt_t.back() + sl[attempts - 1]->delay * MS + SLACK && now > mp->stall_until + SLACK && attempts < (int)sl.size()) violation("[start-late] process %s has not been started %.3f s after the one before it", who(attempts), (now - attempt_t.back()) / 1e6);
    if(!attempts && now > mp->stall_until + SLACK) violation("[start-late] the first process has not been started");
    for(auto k : kids) if(!k->dead && k->slot >= 0) {
        if(k->quit_by >= 0 && !k->asked && now > k->quit_by) violation("[limit] process %s exceeds its %s limit since %.3f s and has not been asked to quit", who(k->slot), k->cpuhog ? "CPU" : "memory", k->hog / 1e6);
        if(k->kill_by >= 0 && k->asked && k->stubborn && now > k->kill_by) violation("[limit] process %s did not quit and has not been killed", who(k->slot)); }
}
void stall(usec d) { mp->stall_until = std::max(mp->stall_until, now + d); fired(F_STALL); trace("the master is stalled %lld ms", (long long)d / MS);
    for(auto s : sl) if(s->live < 0) { if(s->deadline >= 0) s->deadline += d; if(s->starts && now <= s->noticed) { s->noticed += d; if(s->noticed - s->started > 60 * S) s->lo = 0; } }
    for(auto k : kids) { if(k->quit_by >= 0) k->quit_by += d; if(k->kill_by >= 0) k->kill_by += d; } }
void scn_master() {
    world_init(); cfg.p_switch = 0.1 + 0.1 * R(3); cfg.preempt_mean = R(2) ? 0 : 20 + R(300); cfg.p_eintr = R(3) == 2 ? 0.05 : 0; cfg.step_budget = 20 * 1000 * 1000; cfg.edge_budget *= 3;
    setup();
    usec len = (R(3) ? 20 + R(200) : 200 + R(1500)) * S;
    spawn("kids", [] {
        for(;;) {
            usec next = -1; kick = false;
            for(size_t i = 0; i < kids.size(); i++) { Kid *k = kids[i]; if(k->dead || k->dies < 0 || k->slot < 0) continue; if(k->dies <= now) die(k, R(2) ? SIGSEGV : R(3) << 8, "deaths"); else if(next < 0 || k->dies < next) next = k->dies; }
            wait_until([] { return kick; }, next < 0 ? -1 : std::max<usec>(1, next - now), "kids");
        } });
    mark_root(spawn("ctl", [len] {
        usec end = now + len; double pb = R(2) ? 0.02 : 0.2;
        sleep_us(R(4) ? R(200) * MS : R(20) * MS);
        while(now < end) {
            overdue(); if(!mp->alive) break;
            if(P(pb)) { // bursts, and everything else that happens to the master
                int w = R(12);
                if(w < 5) { std::vector<Kid *> l; for(auto k : kids) if(!k->dead && k->slot >= 0) l.push_back(k); int c = 0, pp = 1 + R(4); for(auto k : l) if(w < 2 || R(4) < (uint32_t)pp) { die(k, SIGKILL, "deaths in a burst"); c++; if(R(6) == 5) sleep_us(R(30)); } if(c > 10) count("bursts of more than 10 deaths"); }
                else if(w < 7) clock_jump((R(2) ? 1 : -1) * (R(3) ? (int64_t)R(100000) * MS : (int64_t)R(400000) * S));
                else if(w == 7) { stall(R(3) ? R(3000) * MS : R(100) * S); }
                else if(w < 10) { if(attempts == 0) continue; static const int sg[] = {SIGHUP, SIGPIPE, SIGCHLD, SIGHUP}; deliver_signal(mp, sg[R(4)]); }
                else { static const double pf[] = {0, 0.9, 0.2, 1}; p_forkfail = pf[R(4)]; }
            }
            if(last_exec && now - last_exec > 90 * S && R(3)) sleep_us(10 * S); else sleep_us(R(3) ? 1 + R(1000) * MS : R(20) * MS);
        }
        // the faults stop: everything has to come back and stay
        faults = false; for(auto k : kids) if(!k->dead && k->hog < 0 && R(2)) k->dies = -1; kick = true;
        auto settled = [] { if(start_end < 0 || now < start_end) return false; for(auto s : sl) if(s->restart && s->live < 0) return false; return true; };
        usec lim = now + 600 * S; while(!settled() && now < lim) { sleep_us(500 * MS); overdue(); }
        if(!settled()) violation("[lost] not all processes run 600 s after the faults have stopped");
        usec more = R(2) ? 70 * S : 2 * S; for(usec e = now + more; now < e;) { sleep_us(500 * MS); overdue(); }
        if(R(2)) {
            static const int sg[] = {SIGTERM, SIGINT, SIGQUIT}; quitting = true; count("masters told to quit"); std::vector<Kid *> l; for(auto k : kids) if(!k->dead && k->slot >= 0) l.push_back(k); deliver_signal(mp, sg[R(3)]); usec lim = 3 * S + std::max<usec>(0, mp->stall_until - now);
            if(!wait_until([] { return !mp->alive; }, lim, "master exit")) violation("[quit] the master was told to quit and still runs");
            for(auto k : l) if(!k->dead && !k->termed && !k->asked) violation("[quit] the master quit without telling process %s", who(k->slot));
        }
        state(attempts * 31 + sl.size());
        simi::finish(0);
    })->main);
    run_loop();
}
SCENARIO("C19", "master", 1, scn_master, REALC, STUBC)
}
