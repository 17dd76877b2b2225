// Replacements for the libc/pthread calls of the code under test (bound by objcopy --redefine-syms).
#include "core.h"
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <climits>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
using namespace sim;
#define EC extern "C"

static Fd *getfd(int fd) {
    if(!cur) return nullptr;
    auto it = cur->proc->fds.find(fd);
    return it == cur->proc->fds.end() ? nullptr : it->second;
}
static int newfd(Fd *f) {
    Proc *p = cur->proc; int n = p->lowest_fd;
    while(p->fds.count(n)) n++;
    p->fds[n] = f; return n;
}
static std::string addrkey(const struct sockaddr *a, socklen_t len) {
    if(a->sa_family == AF_UNIX) {
        const struct sockaddr_un *u = (const struct sockaddr_un *)a;
        size_t m = len > offsetof(struct sockaddr_un, sun_path) ? len - offsetof(struct sockaddr_un, sun_path) : 0;
        return "unix:" + std::string(u->sun_path, strnlen(u->sun_path, m));
    }
    const struct sockaddr_in *i = (const struct sockaddr_in *)a;
    uint32_t ip = ntohl(i->sin_addr.s_addr); char b[40] = ""; if(ip && ip >> 24 != 127) snprintf(b, sizeof b, "%u.%u.%u.%u:", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255);
    return std::string("tcp:") + b + std::to_string(ntohs(i->sin_port));
}
static bool eintr() {
    if(!cfg.p_eintr || cur->proc->noeintr) return false;
    if(flip(ST_FAULT, cfg.p_eintr)) { fired(F_EINTR); trace("EINTR injected"); errno = EINTR; return true; }
    return false;
}
static std::map<std::string, std::pair<Proc *, Fd *>> listeners;
namespace sim { bool listening(const std::string &k) { auto it = listeners.find(k); return it != listeners.end() && it->second.first->alive; } }

// ------------------------------------------------------------------ sockets
EC int sim_socket(int domain, int, int) { cur->proc->nopreempt = false; Fd *f = new Fd; f->domain = domain; return newfd(f); }
EC int sim_bind(int fd, const struct sockaddr *a, socklen_t l) {
    Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; }
    std::string k = addrkey(a, l);
    auto it = listeners.find(k);
    if(it != listeners.end() && it->second.first->alive && it->second.first->fds.size() && it->second.second != f) { errno = EADDRINUSE; return -1; }
    f->key = k; return 0;
}
EC int sim_listen(int fd, int n) {
    Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; }
    f->kind = Fd::LISTEN; f->listening = true; f->backlog_max = std::max(n, 1); listeners[f->key] = {cur->proc, f};
    trace("listen %s", f->key.c_str()); return 0;
}
static void net_delay(Pipe &p, usec &t) {
    static const usec tab[] = {0, 500, 5000, 30000, 150000, 450000, 900000, 1050000, 1500000, 2500000, 6000000};
    t = now + cfg.base_latency_us;
    if(cfg.p_delay > 0) {
        uint32_t k = choose0(ST_NET, std::min(cfg.delay_max, 10) + 1, 1.0 - cfg.p_delay);
        if(k) { fired(F_DELAY); usec base = tab[k]; t += base + choose(ST_NET, 8) * base / 16; }
    }
    if(t < p.last_t) t = p.last_t;
    if(t < p.stall_until) t = p.stall_until;
    p.last_t = t;
}
EC int sim_connect(int fd, const struct sockaddr *a, socklen_t l) {
    Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; }
    point("connect");
    std::string k = addrkey(a, l);
    auto full = [k] { auto i = listeners.find(k); return i != listeners.end() && i->second.first->alive && i->second.second->listening && (int)i->second.second->backlog.size() > i->second.second->backlog_max; };
    if(full()) { // a blocking connect waits for room in the listener's queue
        if(f->nonblock) { errno = EAGAIN; return -1; }
        trace("connect %s waits", k.c_str());
        if(!block([full] { return !full(); }, f->sndtimeo ? now + f->sndtimeo : -1, true, "connect")) { errno = cur->interrupted ? EINTR : EAGAIN; return -1; }
    }
    auto it = listeners.find(k);
    if(it == listeners.end() || !it->second.first->alive || !it->second.second->listening) {
        errno = k[0] == 'u' && it == listeners.end() ? ENOENT : ECONNREFUSED; trace("connect %s refused", k.c_str()); return -1; }
    Conn *c = new Conn; c->id = conns.size(); c->key = k; c->owner[0] = cur->proc; c->owner[1] = it->second.first; c->fdno[0] = fd;
    conns.push_back(c); it->second.second->backlog.push_back(c);
    f->kind = Fd::STREAM; f->conn = c; f->side = 0;
    trace("connect %s conn %d", k.c_str(), c->id);
    return 0;
}
EC int sim_accept(int fd, struct sockaddr *a, socklen_t *l) {
    Fd *f = getfd(fd); if(!f || f->kind != Fd::LISTEN) { errno = f ? EINVAL : EBADF; return -1; }
    if(f->nonblock && f->backlog.empty()) { errno = EAGAIN; return -1; }
    if(!block([f] { return !f->backlog.empty(); }, -1, true, "accept")) { errno = EINTR; return -1; }
    if((int)cur->proc->fds.size() >= cur->proc->maxfds) { trace("accept: too many open files"); block(nullptr, now + 5000, false, "accept"); errno = EMFILE; return -1; }
    Conn *c = f->backlog.front(); f->backlog.pop_front();
    Fd *n = new Fd; n->kind = Fd::STREAM; n->conn = c; n->side = 1; n->domain = f->domain; n->key = f->key;
    c->accepted = true; int r = newfd(n); c->fdno[1] = r; c->owner[1] = cur->proc;
    if(a && l && *l) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = f->domain; s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, std::min<size_t>(*l, sizeof s)); }
    trace("accept conn %d as fd %d", c->id, r);
    if(on_accept) on_accept(c);
    return r;
}
EC int sim_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { int r = sim_accept(fd, a, l); if(r >= 0 && (fl & SOCK_NONBLOCK)) getfd(r)->nonblock = true; return r; }
static bool readable(Fd *f) {
    if(f->kind == Fd::LISTEN) return !f->backlog.empty();
    if(f->kind != Fd::STREAM) return false;
    Conn *c = f->conn; conn_pump(c); Pipe &p = c->p[1 - f->side];
    if(!p.avail.empty() || c->reset) return true;
    return p.fin && p.inflight.empty() && p.fin_t <= now;
}
static bool writable(Fd *f) {
    if(f->kind != Fd::STREAM) return false;
    Conn *c = f->conn; conn_pump(c); Pipe &p = c->p[f->side];
    return c->reset || p.rclosed || p.fin || p.avail.size() + p.inflight_bytes < cfg.sockbuf;
}
static void fin(Fd *f) {
    Conn *c = f->conn; int s = f->side; c->p[s].fin = true; c->p[s].fin_t = std::max(c->p[s].last_t, now); c->p[1 - s].rclosed = true;
    if(on_close) on_close(c, s);
}
static ssize_t do_read(int fd, void *buf, size_t n, int flags) {
    Fd *f = getfd(fd);
    if(!f) { if(fd >= 0 && fd < 3) { if(fd == 0) block(nullptr, -1, true, "read(stdin)"); errno = EINTR; return -1; } errno = EBADF; return -1; }
    if(f->kind != Fd::STREAM) { errno = ENOTCONN; return -1; }
    if(n == 0) return 0;
    if(eintr()) return -1;
    Conn *c = f->conn; Pipe &p = c->p[1 - f->side];
    if((f->nonblock || (flags & MSG_DONTWAIT)) && !readable(f)) { point("read"); errno = EAGAIN; return -1; }
    // an in-progress read keeps the socket open even if another thread closes the descriptor
    f->inuse++;
    bool got = block([f] { return readable(f); }, f->rcvtimeo ? now + f->rcvtimeo : -1, true, "read");
    bool to = cur->timed_out;
    f->inuse--;
    if(f->close_pending && !f->inuse) fin(f);
    if(!got) { errno = to ? EAGAIN : EINTR; return -1; }
    if(p.avail.empty()) {
        if(c->reset) { errno = ECONNRESET; trace("read fd %d ECONNRESET", fd); return -1; }
        p.eof_seen = true; trace("read fd %d EOF (conn %d)", fd, c->id); return 0;
    }
    size_t m = std::min(n, p.avail.size());
    if(m > 1 && cfg.p_shortread > 0 && flip(ST_NET, cfg.p_shortread)) { m = 1 + choose(ST_NET, m - 1); fired(F_SHORTREAD); }
    std::vector<uint8_t> d(p.avail.begin(), p.avail.begin() + m);
    memcpy(buf, d.data(), m);
    if(!(flags & MSG_PEEK)) { p.avail.erase(p.avail.begin(), p.avail.begin() + m); p.consumed += m; if(on_read) on_read(c, f->side, d.data(), m); }
    mix(0x2000 + m); // (sizes only: some messages carry unused bytes that are never initialised)
    trace("read conn %d side %d: %zu of %zu", c->id, f->side, m, n);
    return m;
}
static ssize_t do_write(int fd, const void *buf, size_t n, int flags) {
    Fd *f = getfd(fd);
    if(!f) { if(fd >= 0 && fd < 3) return n; errno = EBADF; return -1; }
    if(f->kind != Fd::STREAM) { errno = ENOTCONN; return -1; }
    if(eintr()) return -1;
    if(n == 0) return 0;
    Conn *c = f->conn; Pipe &p = c->p[f->side];
    size_t done = 0; const uint8_t *b = (const uint8_t *)buf;
    if(on_offer) on_offer(c, f->side, b, n);
    while(done < n) {
        bool nb = f->nonblock || (flags & MSG_DONTWAIT);
        if(nb && !writable(f)) { if(done) return done; errno = EAGAIN; return -1; }
        if(!block([f] { return writable(f); }, f->sndtimeo ? now + f->sndtimeo : -1, true, "write")) { bool to = cur->timed_out; if(done) return done; if(to && on_write_fail) on_write_fail(c, f->side, b, n); errno = to ? EAGAIN : EINTR; return -1; }
        if(c->reset || p.rclosed || p.fin) { if(done) return done; if(on_write_fail) on_write_fail(c, f->side, b, n); errno = c->reset ? ECONNRESET : EPIPE; trace("write fd %d error", fd); return -1; }
        size_t room = cfg.sockbuf - (p.avail.size() + p.inflight_bytes);
        size_t m = std::min(room, n - done);
        bool cut = false;
        if(m > 1 && cfg.p_shortwrite > 0 && !cur->proc->noeintr && flip(ST_NET, cfg.p_shortwrite)) { m = 1 + choose(ST_NET, m - 1); cut = true; }
        std::vector<uint8_t> all(b + done, b + done + m);
        size_t pos = 0;
        while(pos < m) {
            size_t k = m - pos;
            if(k > 1 && cfg.p_segment > 0 && flip(ST_NET, cfg.p_segment)) { k = 1 + choose(ST_NET, k - 1); fired(F_SEGMENT); }
            Seg s; net_delay(p, s.t); s.d.assign(all.begin() + pos, all.begin() + pos + k);
            p.inflight_bytes += k; p.inflight.push_back(std::move(s)); pos += k;
        }
        p.written += m; done += m;
        if(on_write) on_write(c, f->side, all.data(), m);
        mix(0x3000 + m);
        trace("write conn %d side %d: %zu bytes", c->id, f->side, m);
        if(cut && done < n) { fired(F_SHORTWRITE); return done; }
    }
    return done;
}
EC ssize_t sim_read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0); }
EC ssize_t sim_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0); }
EC ssize_t sim_recv(int fd, void *b, size_t n, int fl) {
    if(fl & MSG_WAITALL) { size_t d = 0; while(d < n) { ssize_t r = do_read(fd, (char *)b + d, n - d, fl); if(r <= 0) return d ? (ssize_t)d : r; d += r; } return d; }
    return do_read(fd, b, n, fl); }
EC ssize_t sim_send(int fd, const void *b, size_t n, int fl) { return do_write(fd, b, n, fl); }
EC ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, fl); }
EC ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return do_write(fd, b, n, fl); }
EC ssize_t sim_readv(int fd, const struct iovec *v, int c) {
    ssize_t t = 0; for(int i = 0; i < c; i++) { if(!v[i].iov_len) continue; if(t && !readable(getfd(fd))) break; ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, 0); if(r <= 0) return t ? t : r; t += r; if((size_t)r < v[i].iov_len) break; } return t; }
EC ssize_t sim_writev(int fd, const struct iovec *v, int c) {
    std::vector<uint8_t> b; for(int i = 0; i < c; i++) b.insert(b.end(), (uint8_t *)v[i].iov_base, (uint8_t *)v[i].iov_base + v[i].iov_len);
    return do_write(fd, b.data(), b.size(), 0); }
EC ssize_t sim_sendmsg(int fd, const struct msghdr *m, int) { return sim_writev(fd, m->msg_iov, m->msg_iovlen); }
EC ssize_t sim_recvmsg(int fd, struct msghdr *m, int) { return sim_readv(fd, m->msg_iov, m->msg_iovlen); }
EC int sim_close(int fd) {
    Fd *f = getfd(fd); if(!f) { if(fd >= 0 && fd < 3) return 0; errno = EBADF; return -1; }
    point("close");
    if(f->kind == Fd::STREAM && f->conn) {
        trace("close fd %d conn %d side %d", fd, f->conn->id, f->side);
        if(f->inuse) { f->close_pending = true; cur->proc->closing.push_back(f); } else fin(f);
    } else if(f->kind == Fd::LISTEN) {
        listeners.erase(f->key);
        for(auto c : f->backlog) { c->reset = true; c->p[1].fin = true; c->p[1].fin_t = now; }
    }
    cur->proc->fds.erase(fd);
    return 0;
}
EC int sim_shutdown(int fd, int how) {
    Fd *f = getfd(fd); if(!f || f->kind != Fd::STREAM) { errno = ENOTCONN; return -1; }
    Conn *c = f->conn; int s = f->side;
    if(how != SHUT_RD) { c->p[s].fin = true; c->p[s].fin_t = std::max(c->p[s].last_t, now); }
    if(how != SHUT_WR) { c->p[1 - s].rclosed = true; Pipe &p = c->p[1 - s]; p.inflight.clear(); p.inflight_bytes = 0; p.fin = true; p.fin_t = now; }
    return 0;
}
static int do_select(int n, fd_set *r, fd_set *w, fd_set *e, usec timeout) {
    if(eintr()) return -1;
    Proc *pr = cur->proc; fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi);
    if(r) ri = *r;
    if(w) wi = *w;
    for(int i = 0; i < n; i++) if((r && FD_ISSET(i, &ri)) || (w && FD_ISSET(i, &wi))) if(!pr->fds.count(i) && i > 2) { errno = EBADF; return -1; }
    auto ready = [pr, n, &ri, &wi] {
        for(int i = 0; i < n; i++) {
            bool a = FD_ISSET(i, &ri), b = FD_ISSET(i, &wi); if(!a && !b) continue;
            auto it = pr->fds.find(i); if(it == pr->fds.end()) continue;
            if(a && readable(it->second)) return true;
            if(b && writable(it->second)) return true;
        }
        return false; };
    bool ok = block(ready, timeout < 0 ? -1 : now + timeout, true, "select");
    if(!ok && cur->interrupted) { errno = EINTR; return -1; }
    if(r) FD_ZERO(r);
    if(w) FD_ZERO(w);
    if(e) FD_ZERO(e);
    if(!ok) return 0;
    int cnt = 0;
    for(int i = 0; i < n; i++) {
        auto it = pr->fds.find(i); if(it == pr->fds.end()) continue;
        if(FD_ISSET(i, &ri) && readable(it->second)) { FD_SET(i, r); cnt++; }
        if(FD_ISSET(i, &wi) && writable(it->second)) { FD_SET(i, w); cnt++; }
    }
    return cnt;
}
EC int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    usec s = now; int x = do_select(n, r, w, e, tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1);
    if(tv) { usec left = std::max<usec>(0, tv->tv_sec * 1000000LL + tv->tv_usec - (now - s)); tv->tv_sec = left / 1000000; tv->tv_usec = left % 1000000; }
    return x;
}
EC int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) { return do_select(n, r, w, e, ts ? ts->tv_sec * 1000000LL + ts->tv_nsec / 1000 : -1); }
EC int sim_poll(struct pollfd *p, nfds_t n, int ms) {
    if(eintr()) return -1;
    Proc *pr = cur->proc;
    auto scan = [&](bool set) { int c = 0; for(nfds_t i = 0; i < n; i++) { short ev = 0; if(p[i].fd < 0) { if(set) p[i].revents = 0; continue; } auto it = pr->fds.find(p[i].fd);
            if(it == pr->fds.end()) ev = POLLNVAL; else { Fd *f = it->second; if((p[i].events & POLLIN) && readable(f)) ev |= POLLIN; if((p[i].events & POLLOUT) && writable(f)) ev |= POLLOUT;
                if(f->kind == Fd::STREAM && f->conn->reset) ev |= POLLERR; }
            if(set) p[i].revents = ev;
            if(ev) c++; } return c; };
    bool ok = block([&] { return scan(false) > 0; }, ms < 0 ? -1 : now + ms * 1000LL, true, "poll");
    if(!ok && cur->interrupted) { errno = EINTR; return -1; }
    return scan(true);
}
EC int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) { return sim_poll(p, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1); }
EC int sim_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t) {
    Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; }
    if(lvl == SOL_SOCKET && opt == SO_RCVTIMEO) { const struct timeval *t = (const struct timeval *)v; f->rcvtimeo = t->tv_sec * 1000000LL + t->tv_usec; }
    if(lvl == SOL_SOCKET && opt == SO_SNDTIMEO) { const struct timeval *t = (const struct timeval *)v; f->sndtimeo = t->tv_sec * 1000000LL + t->tv_usec; }
    return 0;
}
EC int sim_getsockopt(int fd, int, int, void *v, socklen_t *l) { Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; } if(v && l) memset(v, 0, *l); return 0; }
static int fakeaddr(int fd, struct sockaddr *a, socklen_t *l) {
    Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; }
    struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = f->domain; s.sin_addr.s_addr = htonl(0x7f000001); s.sin_port = htons(40000 + (f->conn ? f->conn->id : 0));
    memcpy(a, &s, std::min<size_t>(*l, sizeof s)); *l = f->domain == AF_UNIX ? 2 : sizeof s; return 0;
}
EC int sim_getsockname(int fd, struct sockaddr *a, socklen_t *l) { return fakeaddr(fd, a, l); }
EC int sim_getpeername(int fd, struct sockaddr *a, socklen_t *l) { return fakeaddr(fd, a, l); }
EC int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; }
    if(cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if(cmd == F_SETFL) f->nonblock = arg & O_NONBLOCK;
    return 0;
}
EC int sim_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); int *arg = va_arg(ap, int *); va_end(ap);
    Fd *f = getfd(fd); if(!f) { errno = EBADF; return -1; }
    if(req == FIONREAD && f->kind == Fd::STREAM) { conn_pump(f->conn); *arg = f->conn->p[1 - f->side].avail.size(); }
    else if(req == FIONBIO) f->nonblock = *arg;
    return 0;
}
EC int sim_unlink(const char *) { return 0; }
EC int sim_tcflush(int, int) { return 0; }

// ------------------------------------------------------------------ time
static int do_sleep(usec d, usec *left) {
    usec e = now + d;
    if(eintr()) { if(left) *left = d; return -1; }
    block(nullptr, e, true, "sleep");
    if(cur->interrupted) { if(left) *left = std::max<usec>(0, e - now); errno = EINTR; return -1; }
    return 0;
}
EC unsigned sim_sleep(unsigned s) { usec l = 0; if(do_sleep(s * 1000000LL, &l)) return (l + 999999) / 1000000; return 0; }
EC int sim_usleep(useconds_t u) { return do_sleep(u, nullptr); }
EC int sim_nanosleep(const struct timespec *t, struct timespec *rem) {
    if(t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) { errno = EINVAL; return -1; }
    usec l = 0; int r = do_sleep(t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000, &l);
    if(r && rem) { rem->tv_sec = l / 1000000; rem->tv_nsec = (l % 1000000) * 1000; }
    return r;
}
EC int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if(fl & TIMER_ABSTIME) { usec a = t->tv_sec * 1000000LL + t->tv_nsec / 1000; if(c == CLOCK_REALTIME) a -= rt_offset; return do_sleep(std::max<usec>(0, a - now), nullptr) ? EINTR : 0; }
    return sim_nanosleep(t, rem) ? errno : 0;
}
EC int sim_clock_gettime(clockid_t c, struct timespec *t) {
    now += 1; usec v = now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? rt_offset : 0);
    t->tv_sec = v / 1000000; t->tv_nsec = (v % 1000000) * 1000; return 0;
}
EC int sim_gettimeofday(struct timeval *t, void *) { now += 1; usec v = now + rt_offset; t->tv_sec = v / 1000000; t->tv_usec = v % 1000000; return 0; }
EC time_t sim_time(time_t *t) { now += 1; time_t v = (now + rt_offset) / 1000000; if(t) *t = v; return v; }
EC struct tm *sim_gmtime(const time_t *t) { static std::map<Proc *, struct tm> m; struct tm *r = &m[cur->proc]; return gmtime_r(t, r); }

// ------------------------------------------------------------------ threads
struct Mx { Fiber *owner = nullptr; int rec = 0; int type = 0; };
struct Cv { std::vector<std::pair<Fiber *, bool *>> w; bool mono = false; };
struct Br { unsigned n = 0, arrived = 0; uint64_t gen = 0; };
struct Sm { unsigned v = 0; };
struct Rw { Fiber *w = nullptr; int r = 0; };
static std::map<std::pair<Proc *, const void *>, Mx> mxs;
static std::map<std::pair<Proc *, const void *>, Cv> cvs;
static std::map<std::pair<Proc *, const void *>, Br> brs;
static std::map<std::pair<Proc *, const void *>, Sm> sms;
static std::map<std::pair<Proc *, const void *>, Rw> rws;
static std::map<uint64_t, Fiber *> tids;
#define KEY(p) std::make_pair(cur->proc, (const void *)(p))

static void end_thread() { cur->done = true; cur->fn = nullptr; for(;;) block([] { return false; }, -1, false, "ended"); }
EC int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    Fiber *f = thread(cur->proc, cur->proc->name + ".t" + std::to_string(cur->proc->fibers.size()), nullptr);
    f->fn = [f, fn, arg] { f->ret = fn(arg); };
    tids[f->id] = f; *t = (pthread_t)f->id; point("pthread_create"); return 0;
}
EC int sim_pthread_join(pthread_t t, void **r) {
    auto it = tids.find((uint64_t)t); if(it == tids.end()) return ESRCH;
    Fiber *f = it->second; block([f] { return f->done; }, -1, false, "pthread_join"); if(r) *r = f->ret; return 0;
}
EC int sim_pthread_detach(pthread_t t) { auto it = tids.find((uint64_t)t); if(it == tids.end()) return ESRCH; it->second->detached = true; return 0; }
EC pthread_t sim_pthread_self(void) { tids[cur->id] = cur; return (pthread_t)cur->id; }
EC int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
EC void sim_pthread_exit(void *r) { cur->ret = r; end_thread(); abort(); }
EC int sim_pthread_cancel(pthread_t t) { auto it = tids.find((uint64_t)t); if(it == tids.end()) return ESRCH; it->second->done = true; return 0; }
EC int sim_pthread_kill(pthread_t, int) { return 0; }
EC int sim_sched_yield(void) { point("sched_yield"); return 0; }

EC int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    int type = 0; if(a) pthread_mutexattr_gettype(a, &type);
    Mx x; x.type = type; mxs[KEY(m)] = x; return 0; }
EC int sim_pthread_mutex_destroy(pthread_mutex_t *m) { auto k = KEY(m); auto it = mxs.find(k); if(it != mxs.end() && it->second.owner) return EBUSY; mxs.erase(k); return 0; }
EC int sim_pthread_mutex_lock(pthread_mutex_t *m) {
    auto k = KEY(m); Mx &x0 = mxs[k];
    if(x0.owner == cur && x0.type == PTHREAD_MUTEX_RECURSIVE) { x0.rec++; return 0; }
    if(x0.owner == cur && x0.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    block([k] { return mxs[k].owner == nullptr; }, -1, false, "mutex_lock");
    Mx &x = mxs[k]; x.owner = cur; x.rec = 1; return 0;
}
EC int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
    point("trylock"); Mx &x = mxs[KEY(m)];
    if(x.owner == cur && x.type == PTHREAD_MUTEX_RECURSIVE) { x.rec++; return 0; }
    if(x.owner) return EBUSY;
    x.owner = cur; x.rec = 1; return 0; }
static int timedlock(pthread_mutex_t *m, usec dl) {
    auto k = KEY(m); Mx &x0 = mxs[k]; if(x0.owner == cur && x0.type == PTHREAD_MUTEX_RECURSIVE) { x0.rec++; return 0; }
    if(!block([k] { return mxs[k].owner == nullptr; }, dl, false, "mutex_timedlock", true)) return ETIMEDOUT;
    Mx &x = mxs[k]; x.owner = cur; x.rec = 1; return 0; }
EC int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return timedlock(m, std::max<usec>(0, t->tv_sec * 1000000LL + t->tv_nsec / 1000 - rt_offset)); }
EC int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    Mx &x = mxs[KEY(m)];
    if(x.owner != cur && (x.type == PTHREAD_MUTEX_RECURSIVE || x.type == PTHREAD_MUTEX_ERRORCHECK)) return EPERM;
    if(x.rec > 1) { x.rec--; return 0; }
    x.owner = nullptr; x.rec = 0; point("mutex_unlock"); return 0;
}
EC int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { Cv v; clockid_t id; v.mono = a && !pthread_condattr_getclock(a, &id) && id == CLOCK_MONOTONIC; cvs[KEY(c)] = v; return 0; }
EC int sim_pthread_cond_destroy(pthread_cond_t *c) { cvs.erase(KEY(c)); return 0; }
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, usec dl, bool rt) {
    auto k = KEY(c); bool sig = false; Fiber *me = cur;
    cvs[k].w.push_back({me, &sig});
    Mx &x = mxs[KEY(m)]; int r = x.rec; x.owner = nullptr; x.rec = 0;
    int res = 0;
    if(cfg.p_spurious > 0 && flip(ST_FAULT, cfg.p_spurious)) { fired(F_SPURIOUS); point("spurious wakeup"); }
    else if(!block([&sig] { return sig; }, dl, false, "cond_wait", rt)) res = ETIMEDOUT;
    auto it = cvs.find(k);
    if(it != cvs.end()) { auto &w = it->second.w; for(size_t i = 0; i < w.size(); i++) if(w[i].second == &sig) { w.erase(w.begin() + i); break; } }
    auto km = KEY(m);
    block([km] { return mxs[km].owner == nullptr; }, -1, false, "cond_wait relock");
    Mx &y = mxs[km]; y.owner = me; y.rec = r ? r : 1;
    return res;
}
EC int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condwait(c, m, -1, false); }
EC int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if(t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    bool mono = cvs[KEY(c)].mono; return condwait(c, m, std::max<usec>(0, t->tv_sec * 1000000LL + t->tv_nsec / 1000 - (mono ? 0 : rt_offset)), !mono); }
EC int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t) {
    if(t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    usec a = t->tv_sec * 1000000LL + t->tv_nsec / 1000; return condwait(c, m, std::max<usec>(0, id == CLOCK_REALTIME ? a - rt_offset : a), id == CLOCK_REALTIME); }
EC int sim_pthread_cond_signal(pthread_cond_t *c) {
    auto &w = cvs[KEY(c)].w; std::vector<size_t> un; for(size_t i = 0; i < w.size(); i++) if(!*w[i].second) un.push_back(i);
    if(!un.empty()) *w[un[choose(ST_SCHED, un.size())]].second = true;
    point("cond_signal"); return 0; }
EC int sim_pthread_cond_broadcast(pthread_cond_t *c) { for(auto &x : cvs[KEY(c)].w) *x.second = true; point("cond_broadcast"); return 0; }
EC int sim_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) { if(!n) return EINVAL; Br x; x.n = n; brs[KEY(b)] = x; return 0; }
EC int sim_pthread_barrier_destroy(pthread_barrier_t *b) { brs.erase(KEY(b)); return 0; }
EC int sim_pthread_barrier_wait(pthread_barrier_t *b) {
    auto k = KEY(b); Br &x = brs[k]; point("barrier");
    if(++x.arrived >= x.n) { x.arrived = 0; x.gen++; return PTHREAD_BARRIER_SERIAL_THREAD; }
    uint64_t g = x.gen; block([k, g] { return brs[k].gen != g; }, -1, false, "barrier_wait"); return 0; }
EC int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { rws[KEY(l)] = Rw(); return 0; }
EC int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) { rws.erase(KEY(l)); return 0; }
EC int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { auto k = KEY(l); block([k] { return !rws[k].w; }, -1, false, "rdlock"); rws[k].r++; return 0; }
EC int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { auto k = KEY(l); block([k] { return !rws[k].w && !rws[k].r; }, -1, false, "wrlock"); rws[k].w = cur; return 0; }
EC int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { Rw &x = rws[KEY(l)]; if(x.w) x.w = nullptr; else if(x.r) x.r--; point("rwunlock"); return 0; }
EC int sim_sem_init(sem_t *s, int, unsigned v) { sms[KEY(s)].v = v; return 0; }
EC int sim_sem_destroy(sem_t *s) { sms.erase(KEY(s)); return 0; }
EC int sim_sem_post(sem_t *s) { sms[KEY(s)].v++; point("sem_post"); return 0; }
EC int sim_sem_wait(sem_t *s) { auto k = KEY(s); if(!block([k] { return sms[k].v > 0; }, -1, true, "sem_wait")) { errno = EINTR; return -1; } sms[k].v--; return 0; }
EC int sim_sem_trywait(sem_t *s) { auto &x = sms[KEY(s)]; if(!x.v) { errno = EAGAIN; return -1; } x.v--; return 0; }
EC int sim_sem_timedwait(sem_t *s, const struct timespec *t) { auto k = KEY(s); if(!block([k] { return sms[k].v > 0; }, std::max<usec>(0, t->tv_sec * 1000000LL + t->tv_nsec / 1000 - rt_offset), true, "sem_timedwait", true)) { errno = cur->timed_out ? ETIMEDOUT : EINTR; return -1; } sms[k].v--; return 0; }

// ------------------------------------------------------------------ process
EC int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if(o) memset(o, 0, sizeof *o); if(a) cur->proc->handlers[s] = a->sa_handler; return 0; }
EC sighandler_t sim_signal(int s, sighandler_t h) { cur->proc->handlers[s] = h; return SIG_DFL; }
EC int sim_pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }
EC int sim_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
EC pid_t sim_getpid(void) { return cur->proc->pid; }
namespace sim { void child_exit(int); }
EC void sim_exit(int c) { if(forkseam.in_child) child_exit(c); kill_proc(cur->proc, false, c, "exit"); abort(); }
EC void sim__exit(int c) { if(forkseam.in_child) child_exit(c); kill_proc(cur->proc, false, c, "_exit"); abort(); }
EC void sim_abort(void) { violation("process %s called abort()", cur->proc->name.c_str()); }
EC void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    (void)l; const char *b = strrchr(f, '/'); violation("process %s died: assertion '%s' failed in %s (%s)", cur->proc->name.c_str(), e, b ? b + 1 : f, fn); }

// ------------------------------------------------------------------ memory
static bool oom() {
    if(!cur || !cur->proc->allocfail || cfg.p_allocfail <= 0) return false;
    if(flip(ST_ALLOC, cfg.p_allocfail)) { fired(F_ALLOCFAIL); trace("allocation failure"); errno = ENOMEM; return true; }
    return false;
}
static bool huge(size_t n) { if(n <= (8u << 20)) return false; fired(F_ALLOCFAIL); trace("allocation of %zu bytes refused", n); errno = ENOMEM; return true; } // the simulated machine is small
EC void *sim_malloc(size_t n) { return oom() || huge(n) ? nullptr : malloc(n); }
EC void *sim_calloc(size_t a, size_t b) { return oom() || huge(a > 65536 && b > 65536 ? SIZE_MAX : a * b) ? nullptr : calloc(a, b); }
EC void *sim_realloc(void *p, size_t n) { return oom() || huge(n) ? nullptr : realloc(p, n); }
EC char *sim_strdup(const char *s) { return oom() ? nullptr : strdup(s); }
EC char *sim_strndup(const char *s, size_t n) { return oom() ? nullptr : strndup(s, n); }
EC char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->proc->strtok_save); }

// ------------------------------------------------------------------ output
static int vout(const char *f, va_list ap) { char b[1024]; int r = vsnprintf(b, sizeof b, f, ap); if(verbose) { size_t l = strlen(b); while(l && b[l-1] == '\n') b[--l] = 0; trace("out: %s", b); } return r; }
EC int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vout(f, ap); va_end(ap); return r; }
EC int sim_vprintf(const char *f, va_list ap) { return vout(f, ap); }
EC int sim_puts(const char *s) { trace("out: %s", s); return 1; }
EC int sim_putchar(int c) { return c; }
EC int sim_fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r; if(fp == stdout || fp == stderr) r = vout(f, ap); else r = vfprintf(fp, f, ap); va_end(ap); return r; }
EC int sim_fputc(int c, FILE *fp) { return fp == stdout || fp == stderr ? c : fputc(c, fp); }
EC int sim_putc(int c, FILE *fp) { return fp == stdout || fp == stderr ? c : putc(c, fp); }
EC int sim_fputs(const char *s, FILE *fp) { return fp == stdout || fp == stderr ? 1 : fputs(s, fp); }
EC size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *fp) { return fp == stdout || fp == stderr ? b : fwrite(p, a, b, fp); }
EC void sim_perror(const char *) {}
EC void sim_syslog(int, const char *, ...) {}
EC void sim_openlog(const char *, int, int) {}
EC void sim_closelog(void) {}
