// Process-level calls: signals between processes, fork/exec, files under /proc.
#include "core.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <termios.h>
#include <ucontext.h>
using namespace sim;
#define EC extern "C"
EC { struct lua_State; struct lua_State *luaL_newstate(void); }
void (*lua_new_hook)(struct lua_State *);
EC struct lua_State *sim_luaL_newstate(void) { auto L = luaL_newstate(); if(L && lua_new_hook) lua_new_hook(L); return L; }
namespace simi { extern std::vector<Proc *> procs; }
namespace sim { ForkSeam forkseam; }
EC int sim_kill(int pid, int sig) {
    if(forkseam.kill) { int r = forkseam.kill(pid, sig); if(r > 0) return 0; if(r < 0) { errno = -r; return -1; } }
    if(pid <= 0) violation("process %s called kill(%d, %d)", cur->proc->name.c_str(), pid, sig);
    for(auto p : simi::procs) if(p->pid == pid && p->alive) {
        if(!sig) return 0;
        bool self = p == cur->proc; deliver_signal(p, sig); if(self) point("kill self"); return 0; }
    errno = ESRCH; return -1;
}
EC int sim_raise(int sig) { return sim_kill(cur->proc->pid, sig); }
EC int sim_open(const char *path, int, ...) { (void)path; errno = ENOENT; return -1; }
EC int sim_stat(const char *, struct stat *) { errno = ENOENT; return -1; }
EC int sim_setuid(uid_t u) { if(forkseam.uid != 0 && (int)u != forkseam.uid) { errno = EPERM; return -1; } forkseam.uid = forkseam.ruid = u; return 0; }
EC int sim_setgid(gid_t g) { if(forkseam.uid != 0 && (int)g != forkseam.gid) { errno = EPERM; return -1; } forkseam.gid = g; return 0; }
EC uid_t sim_geteuid(void) { return forkseam.uid; }
EC uid_t sim_getuid(void) { return forkseam.ruid; }
EC gid_t sim_getegid(void) { return forkseam.gid; }
EC gid_t sim_getgid(void) { return forkseam.gid; }
EC int sim_chdir(const char *) { return 0; }
EC int sim_setsid(void) { return cur->proc->pid; }
EC mode_t sim_umask(mode_t) { return 022; }
EC int sim_dup(int) { return 0; }
EC int sim_tcgetattr(int, struct termios *t) { memset(t, 0, sizeof *t); return 0; }
EC int sim_tcsetattr(int, int, const struct termios *) { return 0; }
// fork(): the code after it runs first as the child, until exec() or exit(), on the same stack and in the same globals,
// which are then put back and fork() returns a second time, as the parent.
namespace { struct Forked { ucontext_t ctx; std::vector<uint8_t> stack, globals; char *lo; int pid, uid, gid, ruid, err; volatile bool again; } fk; }
static inline void rawcopy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
__attribute__((noinline)) static void fork_restore() { rawcopy(fk.lo, fk.stack.data(), fk.stack.size()); setcontext(&fk.ctx); abort(); }
__attribute__((noinline)) static void child_done() {
    load_globals(fk.globals); forkseam.in_child = false; forkseam.uid = fk.uid; forkseam.gid = fk.gid; forkseam.ruid = fk.ruid; fk.again = true;
    char *here = (char *)__builtin_frame_address(0); size_t gap = 8192 + (here > fk.lo ? here - fk.lo : 0); volatile char *g = (volatile char *)__builtin_alloca(gap); g[0] = 1; g[gap - 1] = 1;
    fork_restore(); abort();
}
EC __attribute__((noinline)) int sim_fork(void) {
    if(!forkseam.fork) { errno = ENOSYS; return -1; }
    if(forkseam.in_child) violation("[child] a new process forks instead of running its program");
    point("fork"); int pid = forkseam.fork(); if(pid <= 0) return pid;
    fk.pid = pid; fk.again = false; fk.uid = forkseam.uid; fk.gid = forkseam.gid; fk.ruid = forkseam.ruid; fk.err = errno;
    getcontext(&fk.ctx);
    if(!fk.again) {
        char *lo = (char *)__builtin_frame_address(0) - 512, *sp; asm volatile("movq %%rsp, %0" : "=r"(sp)); if(sp - 128 < lo) lo = sp - 128;
        fk.lo = lo; size_t n = cur->stack + cur->stksz - lo; fk.stack.resize(n); rawcopy(fk.stack.data(), lo, n); save_globals(fk.globals);
        cur->nopreempt++; forkseam.in_child = true; trace("fork: %d", pid); return 0;
    }
    cur->nopreempt--; errno = fk.err; if(forkseam.parent_resumed) forkseam.parent_resumed();
    return fk.pid;
}
EC int sim_execvp(const char *f, char *const a[]) {
    if(!forkseam.in_child) violation("[exec] the process %s replaced itself by %s", cur->proc->name.c_str(), f);
    errno = ENOENT; if(!forkseam.exec) return -1;
    int e = forkseam.exec(f, a); if(e) { errno = e; return -1; }
    child_done(); return -1;
}
namespace sim { void child_exit(int code) { if(forkseam.child_exit) forkseam.child_exit(code); child_done(); } }
EC int sim_execv(const char *f, char *const a[]) { return sim_execvp(f, a); }
EC pid_t sim_waitpid(pid_t p, int *st, int opt) { if(!forkseam.waitpid) { errno = ECHILD; return -1; } return forkseam.waitpid(p, st, opt); }
EC pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
EC FILE *sim_fopen(const char *path, const char *mode) { if(forkseam.fopen) return forkseam.fopen(path, mode); errno = ENOENT; return nullptr; }
EC int sim_daemon(int, int) { return 0; }
EC int sim_fclose(FILE *f) { if(forkseam.fclose) forkseam.fclose(f); return fclose(f); }
