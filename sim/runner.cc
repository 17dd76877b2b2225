#include "runner.h"
#include "runout.h"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <cerrno>
#include <csignal>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <unordered_set>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <time.h>
#include <sanitizer/asan_interface.h>
using namespace simi;
typedef std::map<int, std::vector<uint32_t>> Choices;

static std::vector<Scenario> &scens() { static std::vector<Scenario> v; return v; }
void add_scenario(Scenario s) { scens().push_back(s); }

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=77:detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=1:"
           "malloc_context_size=6:quarantine_size_mb=16:max_malloc_fill_size=8192:malloc_fill_byte=190:symbolize=1:print_legend=0:print_summary=1:detect_odr_violation=0";
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::string dump_path; static bool in_child = false; static std::string asan_text;

static void write_choices(const std::string &path) {
    FILE *f = fopen(path.c_str(), "w"); if(!f) return;
    for(auto &kv : rec) { fprintf(f, "c %d %zu", kv.first, kv.second.size()); for(auto v : kv.second) fprintf(f, " %u", v); fprintf(f, "\n"); }
    for(auto &kv : marks) { fprintf(f, "m %d %zu", kv.first, kv.second.size()); for(auto v : kv.second) fprintf(f, " %u", v); fprintf(f, "\n"); }
    for(const char *p = sim::trace_text(); *p;) { const char *e = strchr(p, '\n'); fprintf(f, "t %.*s\n", (int)(e - p), p); p = e + 1; }
    fclose(f);
}
namespace simi {
void runner_child_exit() {
    if(!dump_path.empty()) write_choices(dump_path);
    _exit(out->status == 0 ? 0 : 10 + out->status);
}
}
extern "C" void asan_report_cb(const char *t) { asan_text += t; }
static void death_cb() {
    if(!in_child) return;
    // "ERROR: AddressSanitizer: heap-use-after-free ..." + first frame inside the repository
    std::string kind = "memory error", fn = "?";
    size_t a = asan_text.find("AddressSanitizer: ");
    if(a != std::string::npos) { size_t b = asan_text.find_first_of(" \n", a + 18); kind = asan_text.substr(a + 18, b - a - 18); }
    std::istringstream is(asan_text); std::string l;
    while(std::getline(is, l)) { size_t p = l.find(" in "); if(l.find("    #") == 0 && p != std::string::npos && l.find("/repo/") != std::string::npos) { fn = l.substr(p + 4); size_t c = fn.find(':'); if(c != std::string::npos) fn = fn.substr(0, c); break; } }
    snprintf(out->msg, sizeof out->msg, "[memory-error] %s in %s (process %s)", kind.c_str(), fn.c_str(), sim::cur ? sim::cur->proc->name.c_str() : "-");
    if(sim::verbose) { std::istringstream is2(asan_text); while(std::getline(is2, l)) sim::trace_line(l.c_str()); }
    out->status = 2; out->hash = 0;
    // hash at the point of death is part of determinism
    extern uint64_t rhash_now(); out->hash = rhash_now();
    runner_child_exit();
}
namespace simi { extern uint64_t rhash; }
uint64_t rhash_now() { return simi::rhash; }
static void on_alarm(int) { snprintf(out->msg, sizeof out->msg, "[hang] run exceeded its wall-clock limit"); out->status = 4; runner_child_exit(); }

static const Scenario *pick(const std::string &prop, uint64_t seed, const std::string &name) {
    std::vector<const Scenario *> v; double w = 0;
    for(auto &s : scens()) if(prop == s.prop && (name.empty() || name == s.name)) { v.push_back(&s); w += s.weight; }
    if(v.empty()) return nullptr;
    uint64_t h = seed * 0x9E3779B97F4A7C15ULL; h ^= h >> 32; h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 32;
    double x = (h % 1000003) / 1000003.0 * w;
    for(auto s : v) { if(x < s->weight) return s; x -= s->weight; }
    return v.back();
}

// run one simulation in a forked child; returns its Out in *o
static void run_child(const Scenario *sc, uint64_t seed, const Choices *ch, Out *o, const std::string &dump, bool verb) {
    memset(o, 0, sizeof *o); o->status = -1;
    pid_t p = fork();
    if(p == 0) {
        __asm__ volatile("movq %0, %%fs:0x28" : : "r"(0x5ca1ab1e00ULL)); // the stack protector's random value can show up in uninitialised bytes
        in_child = true; out = o; dump_path = dump; sim::verbose = verb;
        __asan_set_error_report_callback(asan_report_cb); __sanitizer_set_death_callback(death_cb);
        int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
        signal(SIGALRM, on_alarm); alarm(60);
        init_run(seed, ch);
        sc->run();
        finish(0);
        _exit(0);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR);
    if(o->status == -1) { o->status = 2; snprintf(o->msg, sizeof o->msg, "[memory-error] run died with wait status 0x%x", st); }
}
static std::string sig(const Out &o) {
    std::string m = o.msg;
    size_t e = m.find(']');
    if(m.size() && m[0] == '[' && e != std::string::npos && m.substr(0, 14) != "[memory-error]") return m.substr(0, e + 1);
    std::string r; for(char c : m) { if(!isdigit((unsigned char)c)) r += c; if(r.size() > 60) break; }
    return r;
}
struct Dump { Choices c, m; std::vector<std::string> t; };
static Dump read_dump(const std::string &p) {
    Dump d; std::ifstream f(p); std::string l;
    while(std::getline(f, l)) {
        if(l[0] == 't') { d.t.push_back(l.substr(2)); continue; }
        std::istringstream is(l); char k; int s; size_t n; is >> k >> s >> n; std::vector<uint32_t> v(n); for(auto &x : v) is >> x;
        (k == 'c' ? d.c : d.m)[s] = v;
    }
    return d;
}
static std::string js(const std::string &s) { std::string r = "\""; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

// ------------------------------------------------------------------ stats shared with the workers
struct WStat {
    uint64_t runs, nontriv, viol_seed; int viol; int herr; char hmsg[512]; int64_t steps, edges; double sim_us; uint64_t faults[64], fruns[64];
    char cname[128][32]; uint64_t cval[128]; char viol_msg[512]; char viol_sig[128]; int stop;
    uint32_t nsh, nst; uint64_t sh[1 << 16], st[1 << 18]; uint8_t cov[RO_COV];
};
static std::string scratch;
static std::string replay_file(const std::string &prop, const std::string &scn, uint64_t seed, const Out &o, const Dump &d, const std::string &dir) {
    mkdir(dir.c_str(), 0755);
    char b[64]; snprintf(b, sizeof b, "%016llx", (unsigned long long)seed);
    std::string path = dir + "/" + prop + "-" + b + ".json";
    FILE *f = fopen(path.c_str(), "w"); if(!f) return "";
    fprintf(f, "{\n \"property\": %s,\n \"scenario\": %s,\n \"seed\": \"%s\",\n \"violation\": %s,\n \"hash\": \"%016llx\",\n \"choices\": {", js(prop).c_str(), js(scn).c_str(), b, js(o.msg).c_str(), (unsigned long long)o.hash);
    bool first = true;
    for(auto &kv : d.c) { fprintf(f, "%s\n  \"%d\": [", first ? "" : ",", kv.first); first = false; for(size_t i = 0; i < kv.second.size(); i++) fprintf(f, "%s%u", i ? "," : "", kv.second[i]); fprintf(f, "]"); }
    fprintf(f, "\n },\n \"trace\": [");
    for(size_t i = 0; i < d.t.size(); i++) fprintf(f, "%s\n  %s", i ? "," : "", js(d.t[i]).c_str());
    fprintf(f, "\n ]\n}\n"); fclose(f);
    return path;
}
static bool load_replay(const std::string &path, std::string &prop, std::string &scn, uint64_t &seed, uint64_t &hash, std::string &viol, Choices &c) {
    std::ifstream f(path); if(!f) return false;
    std::string l; bool inch = false;
    auto val = [](const std::string &l) { size_t a = l.find(": \""); size_t b = l.rfind('"'); return a == std::string::npos ? std::string() : l.substr(a + 3, b - a - 3); };
    while(std::getline(f, l)) {
        if(l.find(" \"property\"") == 0) prop = val(l);
        else if(l.find(" \"scenario\"") == 0) scn = val(l);
        else if(l.find(" \"seed\"") == 0) seed = strtoull(val(l).c_str(), nullptr, 16);
        else if(l.find(" \"hash\"") == 0) hash = strtoull(val(l).c_str(), nullptr, 16);
        else if(l.find(" \"violation\"") == 0) viol = val(l);
        else if(l.find(" \"choices\"") == 0) inch = true;
        else if(l.find(" },") == 0) inch = false;
        else if(inch) {
            size_t a = l.find('"'), b = l.find('"', a + 1); int s = atoi(l.substr(a + 1, b - a - 1).c_str());
            std::vector<uint32_t> v; const char *p = strchr(l.c_str(), '[') + 1; while(*p && *p != ']') { v.push_back(strtoul(p, (char **)&p, 10)); if(*p == ',') p++; }
            c[s] = v;
        }
    }
    return !prop.empty();
}
static size_t total(const Choices &c) { size_t n = 0; for(auto &k : c) for(auto v : k.second) n += v ? 1000 + (v < 900 ? v : 900) : 1; return n; }

static Dump minimise(const Scenario *sc, uint64_t seed, Dump best, const std::string &want, Out *o, double limit) {
    double t0 = wall(); int tries = 0; std::string dp = scratch + "/min.dump";
    auto attempt = [&](const Choices &c) -> bool {
        if(wall() - t0 > limit) return false;
        tries++;
        run_child(sc, seed, &c, o, dp, false);
        if((o->status == 1 || o->status == 2) && sig(*o) == want) {
            Dump d = read_dump(dp);
            if(total(d.c) <= total(best.c)) { best = d; return true; }
        }
        return false;
    };
    bool improved = true; int rounds = 0;
    while(improved && rounds++ < 4 && wall() - t0 < limit) {
        improved = false;
        // whole streams to "nothing"
        for(int s : {1, 2, 3, 4, 5, 6}) { if(best.c.count(s) && !best.c[s].empty()) { Choices c = best.c; c[s].clear(); if(attempt(c)) improved = true; } }
        // operations of each actor
        std::vector<int> act; for(auto &k : best.c) if(k.first >= 16) act.push_back(k.first);
        for(int s : act) { Choices c = best.c; c[s].clear(); if(attempt(c)) improved = true; }
        for(int s : act) {
            for(size_t chunk = 8; chunk >= 1; chunk /= 2) {
                for(size_t i = 0; i < best.m[s].size();) {
                    auto m = best.m[s]; size_t a = m[i], b = i + chunk < m.size() ? m[i + chunk] : best.c[s].size();
                    Choices c = best.c; if(b > c[s].size()) b = c[s].size();
                    if(a >= b) { i++; continue; }
                    c[s].erase(c[s].begin() + a, c[s].begin() + b);
                    if(attempt(c)) improved = true; else i += chunk;
                    if(wall() - t0 > limit) return best;
                }
            }
        }
        // zero chunks of scheduling / network / fault decisions
        for(auto &k0 : Choices(best.c)) {
            int s = k0.first;
            for(size_t chunk = std::max<size_t>(1, best.c[s].size() / 2); chunk >= 1; chunk /= 2) {
                for(size_t i = 0; i < best.c[s].size(); i += chunk) {
                    Choices c = best.c; bool any = false; size_t e = std::min(i + chunk, c[s].size());
                    for(size_t j = i; j < e; j++) { if(c[s][j]) any = true; c[s][j] = 0; }
                    if(any && attempt(c)) improved = true;
                    if(wall() - t0 > limit) return best;
                }
                if(chunk == 1) break;
                if(best.c[s].size() > 4000 && chunk < best.c[s].size() / 256) break;
            }
        }
    }
    return best;
}

int main(int argc, char **argv) {
    // fixed addresses make runs of one binary identical
    int pers = personality(0xffffffff);
    if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { if(personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
    std::string prop, replay, evid, rdir = "/verif/replays", tier = "quick", name; uint64_t seed = 1, one = 0; bool hasone = false; double secs = 20; int jobs = 8; bool verb = false; uint64_t maxruns = 1ULL << 40; double minlimit = 45;
    uint64_t detn = 24;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&] { return std::string(argv[++i]); };
        if(a == "--prop") prop = v(); else if(a == "--seed") seed = strtoull(v().c_str(), 0, 0); else if(a == "--seconds") secs = atof(v().c_str()); else if(a == "--jobs") jobs = atoi(v().c_str());
        else if(a == "--evidence") evid = v(); else if(a == "--replay") replay = v(); else if(a == "--replaydir") rdir = v(); else if(a == "--tier") tier = v(); else if(a == "--one") { one = strtoull(v().c_str(), 0, 16); hasone = true; }
        else if(a == "-v") verb = true; else if(a == "--runs") maxruns = strtoull(v().c_str(), 0, 0); else if(a == "--scenario") name = v(); else if(a == "--minlimit") minlimit = atof(v().c_str()); else if(a == "--det") detn = atoi(v().c_str());
        else if(a == "--list") { for(auto &s : scens()) printf("%s %s\n", s.prop, s.name); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    char tmpl[] = "/tmp/simrun.XXXXXX"; scratch = mkdtemp(tmpl);
    struct Clean { ~Clean() { for(const char *n : {"/a.dump", "/b.dump", "/min.dump", "/r.dump"}) unlink((scratch + n).c_str()); rmdir(scratch.c_str()); } } clean;
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    sim::disk_init(); sim::image_init();
    Out *o = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if(!replay.empty()) {
        std::string scn, viol; uint64_t h = 0; Choices c;
        if(!load_replay(replay, prop, scn, seed, h, viol, c)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        const Scenario *sc = pick(prop, seed, scn); if(!sc) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 2; }
        run_child(sc, seed, &c, o, scratch + "/r.dump", true);
        if(verb) { Dump d = read_dump(scratch + "/r.dump"); for(auto &l : d.t) printf("%s\n", l.c_str()); }
        printf("replayed: status %d hash %016llx (recorded %016llx) %s\n", o->status, (unsigned long long)o->hash, (unsigned long long)h, o->msg);
        if(o->status == 1 || o->status == 2) { if(o->hash != h) { printf("HASH-MISMATCH\n"); return 3; } printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str()); return 1; }
        return o->status == 0 ? 0 : 2;
    }
    if(hasone) {
        const Scenario *sc = pick(prop, one, name); if(!sc) { fprintf(stderr, "no scenario\n"); return 2; }
        run_child(sc, one, nullptr, o, scratch + "/r.dump", true);
        Dump d = read_dump(scratch + "/r.dump"); if(verb) for(auto &l : d.t) printf("%s\n", l.c_str());
        printf("%s seed %016llx status %d hash %016llx steps %lld edges %lld sim %.3fs %s\n", sc->name, (unsigned long long)one, o->status, (unsigned long long)o->hash, (long long)o->steps, (long long)o->edges, o->sim_us / 1e6, o->msg);
        for(int i = 0; i < RO_CNT && o->cname[i][0]; i++) printf("  %s=%llu", o->cname[i], (unsigned long long)o->cval[i]);
        printf("\n");
        return o->status ? 1 : 0;
    }
    if(!pick(prop, 1, name)) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    auto seed_of = [&](uint64_t k) { uint64_t z = seed * 0x9E3779B97F4A7C15ULL + k * 0xBF58476D1CE4E5B9ULL + 0x1234567; z ^= z >> 31; z *= 0x94D049BB133111EBULL; z ^= z >> 29; return z; };
    double t0 = wall();
    // determinism: the same seed twice must give the same execution
    uint64_t det = 0;
    {
        std::vector<pid_t> ps;
        for(int j = 0; j < jobs; j++) {
            pid_t p = fork();
            if(p == 0) {
                Out *x = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                for(uint64_t k = j; k < detn; k += jobs) {
                    uint64_t s = seed_of(k); const Scenario *sc = pick(prop, s, name);
                    run_child(sc, s, nullptr, x, "", false); uint64_t h = x->hash; int st = x->status;
                    run_child(sc, s, nullptr, x, "", true);
                    if(x->hash != h || x->status != st) { fprintf(stderr, "nondeterministic run: seed %016llx %s\n", (unsigned long long)s, sc->name); _exit(9); }
                }
                _exit(0);
            }
            ps.push_back(p);
        }
        bool bad = false; for(auto p : ps) { int st; waitpid(p, &st, 0); if(st) bad = true; }
        if(bad) { fprintf(stderr, "simulator error: determinism check failed\n"); return 2; }
        det = detn;
    }
    WStat *ws = (WStat *)mmap(nullptr, sizeof(WStat) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<pid_t> ps;
    for(int j = 0; j < jobs; j++) {
        pid_t p = fork();
        if(p == 0) {
            WStat &w = ws[j]; Out *x = (Out *)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for(uint64_t k = j; k < maxruns && wall() - t0 < secs; k += jobs) {
                bool stop = false; for(int q = 0; q < jobs; q++) if(ws[q].viol || ws[q].herr) stop = true;
                if(stop) break;
                uint64_t s = seed_of(k); const Scenario *sc = pick(prop, s, name);
                run_child(sc, s, nullptr, x, "", false);
                w.runs++; w.nontriv += x->nontrivial; w.steps += x->steps; w.edges += x->edges; w.sim_us += x->sim_us;
                for(int i = 0; i < sim::NFAULT; i++) { w.faults[i] += x->faults[i]; if(x->faults[i]) w.fruns[i]++; }
                for(int i = 0; i < RO_CNT && x->cname[i][0]; i++) for(int q = 0; q < 128; q++) { if(!w.cname[q][0]) memcpy(w.cname[q], x->cname[i], 32); if(!memcmp(w.cname[q], x->cname[i], 32)) { w.cval[q] += x->cval[i]; break; } }
                if(w.nsh < (1 << 16)) w.sh[w.nsh++] = x->shash;
                for(int i = 0; i < x->nstates && w.nst < (1 << 18); i++) w.st[w.nst++] = x->states[i];
                for(int i = 0; i < RO_COV; i++) w.cov[i] |= x->cov[i];
                if(x->status == 1 || x->status == 2) { w.viol_seed = s; snprintf(w.viol_msg, sizeof w.viol_msg, "%s", x->msg); w.viol = 1; break; }
                if(x->status == 4) { w.viol_seed = s; snprintf(w.viol_msg, sizeof w.viol_msg, "%s", x->msg); w.viol = 1; break; }
                if(x->status != 0) { snprintf(w.hmsg, sizeof w.hmsg, "seed %016llx %s: status %d %s", (unsigned long long)s, sc->name, x->status, x->msg); w.herr = 1; break; }
            }
            _exit(0);
        }
        ps.push_back(p);
    }
    for(auto p : ps) { int st; waitpid(p, &st, 0); }
    double dt = wall() - t0;
    WStat tot; memset(&tot, 0, sizeof tot); std::unordered_set<uint64_t> shs, sts; int viol = -1; bool herr = false;
    std::map<std::string, uint64_t> cnts;
    for(int j = 0; j < jobs; j++) {
        WStat &w = ws[j]; tot.runs += w.runs; tot.nontriv += w.nontriv; tot.steps += w.steps; tot.edges += w.edges; tot.sim_us += w.sim_us;
        for(int i = 0; i < 64; i++) { tot.faults[i] += w.faults[i]; tot.fruns[i] += w.fruns[i]; }
        for(int q = 0; q < 128 && w.cname[q][0]; q++) cnts[w.cname[q]] += w.cval[q];
        for(uint32_t i = 0; i < w.nsh; i++) shs.insert(w.sh[i]);
        for(uint32_t i = 0; i < w.nst; i++) sts.insert(w.st[i]);
        for(int i = 0; i < RO_COV; i++) tot.cov[i] |= w.cov[i];
        if(w.viol && viol < 0) viol = j;
        if(w.herr) { herr = true; fprintf(stderr, "simulator error: %s\n", w.hmsg); }
    }
    int rc = 0; std::string vmsg, vpath; uint64_t vseed = 0;
    if(viol >= 0) {
        // gate: same seed reproduces bit for bit, minimise, then reproduce from the file in a fresh process
        vseed = ws[viol].viol_seed; const Scenario *sc = pick(prop, vseed, name);
        run_child(sc, vseed, nullptr, o, scratch + "/a.dump", false); Out a = *o;
        run_child(sc, vseed, nullptr, o, scratch + "/b.dump", false);
        fprintf(stderr, "candidate: seed %016llx %s: %s\n", (unsigned long long)vseed, sc->name, a.msg);
        if(!(a.status == 1 || a.status == 2 || a.status == 4) || o->hash != a.hash || o->status != a.status) { fprintf(stderr, "simulator error: violation not reproducible (%s)\n", ws[viol].viol_msg); return 2; }
        if(a.status == 4) { fprintf(stderr, "simulator error: wall-clock limit\n"); return 2; }
        Dump d = read_dump(scratch + "/a.dump"), full = d; std::string want = sig(a);
        size_t before = 0, after = 0, nz = 0; for(auto &k : d.c) before += k.second.size();
        bool good = false;
        for(int attempt = 0; attempt < 2 && !good; attempt++) { // second attempt: the unminimised run
            if(attempt == 0) d = minimise(sc, vseed, d, want, o, minlimit); else d = full;
            after = nz = 0; for(auto &k : d.c) { after += k.second.size(); for(auto x : k.second) if(x) nz++; }
            run_child(sc, vseed, &d.c, o, scratch + "/r.dump", true); Dump fin = read_dump(scratch + "/r.dump");
            if(!((o->status == 1 || o->status == 2) && sig(*o) == want)) { fprintf(stderr, "note: the %s run does not reproduce in place\n", attempt ? "recorded" : "minimised"); continue; }
            vpath = replay_file(prop, sc->name, vseed, *o, fin, rdir); vmsg = o->msg;
            pid_t p = fork();
            if(p == 0) { int dn = open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 2); execl("/proc/self/exe", "simrun", "--replay", vpath.c_str(), (char *)0); _exit(99); }
            int st; waitpid(p, &st, 0);
            if(!WIFEXITED(st) || (WEXITSTATUS(st) != 1 && !(attempt && WEXITSTATUS(st) == 3))) { fprintf(stderr, "note: fresh-process replay of %s gave status 0x%x\n", vpath.c_str(), st); continue; }
            good = true;
        }
        if(!good) { fprintf(stderr, "simulator error: the violation does not replay\n"); return 2; }
        fprintf(stderr, "minimised: %zu choices -> %zu (%zu non-default)\n", before, after, nz);
        rc = 1;
    } else if(herr) rc = 2;
    if(tot.runs == 0 && rc == 0) { fprintf(stderr, "simulator error: no runs\n"); rc = 2; }
    if(!evid.empty()) {
        FILE *f = fopen(evid.c_str(), "w");
        if(!f) { fprintf(stderr, "cannot write %s\n", evid.c_str()); return 2; }
        size_t cov = 0; for(int i = 0; i < RO_COV; i++) cov += tot.cov[i];
        fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": \"exploration\",\n", js(prop).c_str(), js(tier).c_str(), (unsigned long long)seed);
        fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)tot.runs, (unsigned long long)std::min<uint64_t>(shs.size(), tot.nontriv));
        fprintf(f, "  \"rule\": %s,\n", js("one evaluation = one complete simulated run from its own seed; counted as distinct and non-trivial when its sequence of context switches differs from every other run's and the property's oracle compared at least one result produced by the code under test in it").c_str());
        fprintf(f, "  \"samples\": [");
        for(int k = 0; k < 3; k++) { uint64_t s = seed_of(k); fprintf(f, "%s\"%s seed %016llx\"", k ? ", " : "", pick(prop, s, name)->name, (unsigned long long)s); }
        fprintf(f, "],\n  \"runs\": %llu,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.3f,\n  \"scheduler_steps\": %lld,\n  \"instrumented_edges_executed\": %lld,\n  \"distinct_code_edges_hit\": %zu,\n",
            (unsigned long long)tot.runs, tot.runs / dt * 3600, tot.runs / dt * 3600, tot.sim_us / 1e6, (long long)tot.steps, (long long)tot.edges, cov);
        fprintf(f, "  \"distinct_interleavings\": %zu,\n  \"distinct_interleavings_measure\": \"hash of the sequence of fibers switched to\",\n  \"distinct_states\": %zu,\n  \"distinct_states_measure\": \"hash of the reference model state after each applied operation (first 512 per run)\",\n", shs.size(), sts.size());
        fprintf(f, "  \"determinism_double_runs\": %llu,\n  \"faults_injected\": {", (unsigned long long)det);
        bool first = true; for(int i = 0; i < sim::NFAULT; i++) if(tot.faults[i]) { fprintf(f, "%s\"%s\": {\"times\": %llu, \"runs\": %llu}", first ? "" : ", ", sim::fault_names[i], (unsigned long long)tot.faults[i], (unsigned long long)tot.fruns[i]); first = false; }
        fprintf(f, "},\n  \"operations\": {"); first = true; for(auto &k : cnts) { fprintf(f, "%s%s: %llu", first ? "" : ", ", js(k.first).c_str(), (unsigned long long)k.second); first = false; }
        fprintf(f, "},\n  \"components\": ["); first = true;
        for(auto &s : scens()) if(prop == s.prop) { fprintf(f, "%s{\"scenario\": %s, \"real\": %s, \"stub\": %s}", first ? "" : ", ", js(s.name).c_str(), js(s.real).c_str(), js(s.stub).c_str()); first = false; }
        fprintf(f, "]\n },\n \"wall_s\": %.2f,\n \"violations\": %d", dt, rc == 1 ? 1 : 0);
        if(rc == 1) fprintf(f, ",\n \"violation\": {\"message\": %s, \"seed\": \"%016llx\", \"replay\": %s}", js(vmsg).c_str(), (unsigned long long)vseed, js(vpath).c_str());
        fprintf(f, ",\n \"assumptions\": [\"stream sockets deliver bytes reliably and in order until the connection breaks (TCP/UNIX stream contract)\", \"threads are preempted only at simulated calls and at instrumented control-flow edges (sequentially consistent memory)\", \"Lua and SQLite library code itself runs real and unpreempted\"]\n}\n");
        fclose(f);
    }
    printf("%s: %llu runs, %zu interleavings, %zu states, %.0f simulated s, %.1f wall s, %.0f runs/h\n", prop.c_str(), (unsigned long long)tot.runs, shs.size(), sts.size(), tot.sim_us / 1e6, dt, tot.runs / dt * 3600);
    if(rc == 1) { printf("violation: %s\n", vmsg.c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), vpath.c_str()); }
    return rc;
}
