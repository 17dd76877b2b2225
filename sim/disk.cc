// Simulated disk: an SQLite VFS that keeps the durable image and the unsynced writes apart.
#include "core.h"
#include <sqlite3.h>
#include <cstring>
#include <algorithm>
using namespace sim;
namespace sim { DiskCfg diskcfg; }
struct Op { int kind; sqlite3_int64 off; std::vector<uint8_t> d; }; // 0 write, 1 truncate
struct DFile { std::vector<uint8_t> cur, dur; std::vector<Op> pend; bool exists = true, dur_exists = false; };
static std::map<std::string, DFile> files;
static uint64_t ops = 0; static int64_t crash_at = -1; static std::function<void()> crash_fn;
struct SF { sqlite3_file base; DFile *f; std::string *name; bool temp; };

static void apply(std::vector<uint8_t> &v, const Op &o, size_t n) {
    if(o.kind == 1) { v.resize(o.off); return; }
    if(v.size() < o.off + n) v.resize(o.off + n);
    memcpy(v.data() + o.off, o.d.data(), n);
}
static void step(const char *what) {
    ops++; mix(0x7000);
    if(crash_at >= 0 && (int64_t)ops >= crash_at) { crash_at = -1; auto fn = crash_fn; trace("crash point at disk op %s", what); fn(); }
}
static bool fail(double p, Fault f) { if(p > 0 && flip(ST_DISK, p)) { fired(f); trace("disk fault %s", fault_names[f]); return true; } return false; }
static int xClose(sqlite3_file *p) { SF *s = (SF *)p; if(s->temp) delete s->f; delete s->name; return SQLITE_OK; }
static int xRead(sqlite3_file *p, void *b, int n, sqlite3_int64 off) {
    DFile *f = ((SF *)p)->f;
    if(fail(diskcfg.p_err, F_DISKERR)) return SQLITE_IOERR_READ;
    sqlite3_int64 have = std::max<sqlite3_int64>(0, std::min<sqlite3_int64>(n, (sqlite3_int64)f->cur.size() - off));
    if(have) memcpy(b, f->cur.data() + off, have);
    if(have < n) { memset((char *)b + have, 0, n - have); return SQLITE_IOERR_SHORT_READ; }
    return SQLITE_OK;
}
static int xWrite(sqlite3_file *p, const void *b, int n, sqlite3_int64 off) {
    SF *s = (SF *)p;
    Op o; o.kind = 0; o.off = off; o.d.assign((const uint8_t *)b, (const uint8_t *)b + n);
    if(!s->temp) {
        if(fail(diskcfg.p_full, F_DISKFULL)) return SQLITE_FULL;
        if(fail(diskcfg.p_err, F_DISKERR)) {
            if(n > 1 && fail(diskcfg.p_short, F_DISKSHORT)) { size_t k = choose(ST_DISK, n); apply(s->f->cur, o, k); o.d.resize(k); s->f->pend.push_back(o); }
            return SQLITE_IOERR_WRITE;
        }
        // a crash may hit in the middle of the write: leave a prefix behind
        if(crash_at >= 0 && (int64_t)ops + 1 >= crash_at) { size_t k = choose(ST_DISK, n + 1); Op h = o; h.d.resize(k); apply(s->f->cur, h, k); s->f->pend.push_back(h); }
        step("write");
    }
    apply(s->f->cur, o, n); s->f->pend.push_back(std::move(o));
    return SQLITE_OK;
}
static int xTruncate(sqlite3_file *p, sqlite3_int64 sz) { SF *s = (SF *)p; if(!s->temp) step("truncate"); Op o; o.kind = 1; o.off = sz; apply(s->f->cur, o, 0); s->f->pend.push_back(o); return SQLITE_OK; }
static int xSync(sqlite3_file *p, int) {
    SF *s = (SF *)p; if(!s->temp) { step("sync"); if(fail(diskcfg.p_err, F_DISKERR)) return SQLITE_IOERR_FSYNC; }
    s->f->dur = s->f->cur; s->f->pend.clear(); s->f->dur_exists = s->f->exists; return SQLITE_OK; }
static int xFileSize(sqlite3_file *p, sqlite3_int64 *n) { *n = ((SF *)p)->f->cur.size(); return SQLITE_OK; }
static int xLock(sqlite3_file *, int) { return SQLITE_OK; }
static int xCRL(sqlite3_file *, int *r) { *r = 0; return SQLITE_OK; }
static int xFC(sqlite3_file *, int, void *) { return SQLITE_NOTFOUND; }
static int xSS(sqlite3_file *) { return 512; }
static int xDC(sqlite3_file *) { return 0; }
static sqlite3_io_methods io = {1, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xLock, xCRL, xFC, xSS, xDC, 0, 0, 0, 0, 0, 0};
static int xOpen(sqlite3_vfs *, const char *name, sqlite3_file *p, int flags, int *of) {
    SF *s = (SF *)p; memset(&s->base, 0, sizeof s->base); s->name = new std::string(name ? name : ""); s->temp = !name || (flags & SQLITE_OPEN_DELETEONCLOSE);
    if(s->temp) s->f = new DFile;
    else {
        auto it = files.find(*s->name);
        if(it == files.end() || !it->second.exists) {
            if(!(flags & SQLITE_OPEN_CREATE)) { delete s->name; return SQLITE_CANTOPEN; }
            if(fail(diskcfg.p_err, F_DISKERR)) { delete s->name; return SQLITE_CANTOPEN; }
            step("create");
            DFile &d = files[*s->name]; d.exists = true; d.cur.clear(); Op o; o.kind = 1; o.off = 0; d.pend.push_back(o);
        }
        s->f = &files[*s->name];
    }
    s->base.pMethods = &io; if(of) *of = flags; return SQLITE_OK;
}
static int xDelete(sqlite3_vfs *, const char *n, int sync) {
    auto it = files.find(n); if(it == files.end() || !it->second.exists) return SQLITE_IOERR_DELETE_NOENT;
    step("delete"); if(fail(diskcfg.p_err, F_DISKERR)) return SQLITE_IOERR_DELETE;
    it->second.exists = false; it->second.cur.clear(); it->second.pend.clear();
    if(sync) { it->second.dur_exists = false; it->second.dur.clear(); }
    return SQLITE_OK;
}
static int xAccess(sqlite3_vfs *, const char *n, int, int *r) { auto it = files.find(n); *r = it != files.end() && it->second.exists; return SQLITE_OK; }
static int xFull(sqlite3_vfs *, const char *n, int m, char *o) { sqlite3_snprintf(m, o, "%s", n); return SQLITE_OK; }
static int xRand(sqlite3_vfs *, int n, char *o) { static uint32_t x = 12345; for(int i = 0; i < n; i++) { x = x * 1664525 + 1013904223; o[i] = x >> 24; } return n; }
static int xSleep(sqlite3_vfs *, int) { return 0; }
static int xTime(sqlite3_vfs *, double *t) { *t = 2440587.5 + (now + rt_offset) / 86400e6; return SQLITE_OK; }
static int xErr(sqlite3_vfs *, int, char *) { return 0; }
static sqlite3_vfs vfs;
namespace sim {
void disk_init() {
    sqlite3_config(SQLITE_CONFIG_SINGLETHREAD); sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0);
    vfs.iVersion = 1; vfs.szOsFile = sizeof(SF); vfs.mxPathname = 512; vfs.zName = "sim";
    vfs.xOpen = xOpen; vfs.xDelete = xDelete; vfs.xAccess = xAccess; vfs.xFullPathname = xFull; vfs.xRandomness = xRand; vfs.xSleep = xSleep; vfs.xCurrentTime = xTime; vfs.xGetLastError = xErr;
    sqlite3_vfs_register(&vfs, 1);
}
void disk_process_crash() { crash_at = -1; }
void disk_power_loss() {
    crash_at = -1; fired(F_POWERLOSS); trace("power loss");
    for(auto &kv : files) {
        DFile &f = kv.second; std::vector<uint8_t> v = f.dur; bool ex = f.dur_exists;
        if(f.exists && !f.dur_exists) { // the directory entry itself was never made durable
            if(!f.pend.empty() && choose(ST_DISK, 2)) ex = true;
        }
        if(f.exists && ex) {
            uint32_t mode = choose(ST_DISK, 4); // 0 keep all, 1 lose all, 2 prefix, 3 any subset (reordered)
            size_t n = f.pend.size(), pre = mode == 2 ? choose(ST_DISK, n + 1) : 0;
            for(size_t i = 0; i < n; i++) {
                Op &o = f.pend[i]; bool keep = mode == 0 ? true : mode == 1 ? false : mode == 2 ? i < pre : choose(ST_DISK, 2);
                if(!keep) { fired(F_LOSTWRITE); continue; }
                size_t m = o.d.size();
                if(m > 512 && mode >= 2 && choose(ST_DISK, 4) == 1) { m = 512 * choose(ST_DISK, m / 512 + 1); fired(F_TORNWRITE); }
                apply(v, o, std::min(m, o.d.size()));
            }
        }
        f.exists = f.dur_exists = ex; f.cur = f.dur = ex ? v : std::vector<uint8_t>(); f.pend.clear();
    }
}
void disk_arm_crash(int n, std::function<void()> fn) { crash_at = ops + n; crash_fn = fn; }
uint64_t disk_ops() { return ops; }
bool disk_has(const std::string &n) { auto it = files.find(n); return it != files.end() && it->second.exists; }
}
