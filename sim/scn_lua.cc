// C21: the Lua module: interval and triggered scripts, what they see and what they leave, enabling and failing
#include "api.h"
#include "runout.h"
#include <algorithm>
#include <cmath>
#include <csignal>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
int daxlua_main(int, char **);
}
extern void (*lua_new_hook)(lua_State *);
static const char *REALC = "Lua module (all of src/modules/daxlua), Lua binding (src/lib/lua), tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, threads, locks, clocks, signals and disk are simulated; the scripts ask the harness what to do next; the other module is scripted";
namespace {
const usec MS = 1000, S = 1000000;
uint32_t R(uint32_t n) { return choose(ST_CFG, n); }
// ---- Lua values
struct Val { enum K { NIL, INT, NUM, BOOL, STR, TAB, OTHER } k = NIL; int64_t i = 0; double d = 0; std::string s; std::map<int64_t, Val> a; std::map<std::string, Val> f; };
Val vi(int64_t i) { Val v; v.k = Val::INT; v.i = i; return v; } Val vn(double d) { Val v; v.k = Val::NUM; v.d = d; return v; } Val vb(bool b) { Val v; v.k = Val::BOOL; v.i = b; return v; } Val vs(const std::string &s) { Val v; v.k = Val::STR; v.s = s; return v; } Val vt() { Val v; v.k = Val::TAB; return v; }
Val pull(lua_State *L, int x, int depth = 0) {
    Val v; if(x < 0) x = lua_gettop(L) + 1 + x;
    switch(lua_type(L, x)) {
        case LUA_TNIL: case LUA_TNONE: break; case LUA_TBOOLEAN: v = vb(lua_toboolean(L, x)); break; case LUA_TNUMBER: v = lua_isinteger(L, x) ? vi(lua_tointeger(L, x)) : vn(lua_tonumber(L, x)); break;
        case LUA_TSTRING: { size_t n; const char *p = lua_tolstring(L, x, &n); v = vs(std::string(p, n)); break; }
        case LUA_TTABLE: v.k = Val::TAB; if(depth > 6) break; lua_pushnil(L); while(lua_next(L, x)) { Val e = pull(L, -1, depth + 1); if(lua_type(L, -2) == LUA_TNUMBER) v.a[lua_tointeger(L, -2)] = e; else if(lua_type(L, -2) == LUA_TSTRING) v.f[lua_tostring(L, -2)] = e; lua_pop(L, 1); } break;
        default: v.k = Val::OTHER; }
    return v;
}
void push(lua_State *L, const Val &v) {
    switch(v.k) { case Val::INT: lua_pushinteger(L, v.i); break; case Val::NUM: lua_pushnumber(L, v.d); break; case Val::BOOL: lua_pushboolean(L, v.i); break; case Val::STR: lua_pushlstring(L, v.s.data(), v.s.size()); break;
        case Val::TAB: lua_newtable(L); for(auto &e : v.a) { push(L, e.second); lua_rawseti(L, -2, e.first); } for(auto &e : v.f) { lua_pushlstring(L, e.first.data(), e.first.size()); push(L, e.second); lua_rawset(L, -3); } break;
        default: lua_pushnil(L); }
}
std::string show(const Val &v) {
    char b[64]; switch(v.k) { case Val::NIL: return "nil"; case Val::INT: return std::to_string(v.i); case Val::NUM: snprintf(b, 64, "%.17g", v.d); return strpbrk(b, ".en") ? b : std::string(b) + ".0"; case Val::BOOL: return v.i ? "true" : "false"; case Val::STR: { std::string r = "\""; for(unsigned char c : v.s) if(c >= 32 && c < 127) r += c; else { snprintf(b, 8, "\\%d", c); r += b; } return r + "\""; }
        case Val::TAB: { std::string r = "{"; for(auto &e : v.a) { r += "[" + std::to_string(e.first) + "]=" + show(e.second) + ","; if(r.size() > 200) return r + "..."; } for(auto &e : v.f) { r += e.first + "=" + show(e.second) + ","; if(r.size() > 200) return r + "..."; } return r + "}"; } default: return "?"; }
}
bool same(const Val &a, const Val &b) { if(a.k != b.k) return false; switch(a.k) { case Val::INT: case Val::BOOL: return a.i == b.i; case Val::NUM: return a.d == b.d; case Val::STR: return a.s == b.s; default: return true; } }
// ---- tags as Lua values, written from the manual: numbers, booleans, strings for CHAR arrays, tables
MType *mt(uint32_t id) { for(auto &m : M.types) if(m.id == id) return &m; return nullptr; }
struct Lim { bool sgn; int bits; }; Lim lim(uint32_t t) { return {t == DAX_SINT || t == DAX_CHAR || t == DAX_INT || t == DAX_DINT || t == DAX_LINT || t == DAX_TIME, 1 << (t & 15)}; }
bool isreal(uint32_t t) { return t == DAX_REAL || t == DAX_LREAL; }
uint64_t ldn(const uint8_t *p, int n) { uint64_t x = 0; memcpy(&x, p, n); return x; }
bool match1(uint32_t t, const uint8_t *p, const Val &v) {
    if(t == DAX_REAL || t == DAX_LREAL) { double d; if(t == DAX_REAL) { float f; memcpy(&f, p, 4); d = f; } else memcpy(&d, p, 8); return v.k == Val::NUM ? v.d == d || (d != d && v.d != v.d) : v.k == Val::INT && (double)v.i == d; }
    Lim l = lim(t); uint64_t u = ldn(p, l.bits / 8); int64_t s = (int64_t)u; if(l.sgn && l.bits < 64 && u >> (l.bits - 1)) s = (int64_t)(u | ~0ull << l.bits);
    if(l.sgn || !(u >> 63)) return v.k == Val::INT ? v.i == s : v.k == Val::NUM && std::fabs(v.d) < 9e15 && v.d == (double)s;
    return v.k == Val::INT ? (uint64_t)v.i == u : v.k == Val::NUM && v.d == (double)u;
}
bool match(uint32_t t, uint32_t count, const Bytes &D, uint32_t bit, const Val &v) { // bit: where the value starts
    if(bit / 8 + 1 > D.size() + 1) return false;
    if(t & DAX_CUSTOM) { MType *m = mt(t); if(!m || v.k != Val::TAB) return false; if(count > 1) { for(uint32_t i = 0; i < count; i++) { auto e = v.a.find(i + 1); if(e == v.a.end() || !match(t, 1, D, bit + i * m->size * 8, e->second)) return false; } return v.a.size() == count; }
        for(auto &x : m->m) { auto e = v.f.find(x.name); if(e == v.f.end() || !match(x.type, x.count, D, bit + x.byte * 8 + x.bit, e->second)) return false; } return v.f.size() == m->m.size(); }
    if(t == DAX_BOOL) { auto b = [&](uint32_t i) { return bool(D[(bit + i) / 8] >> ((bit + i) % 8) & 1); }; if(count <= 1) return v.k == Val::BOOL && bool(v.i) == b(0); if(v.k != Val::TAB || v.a.size() != count) return false; for(uint32_t i = 0; i < count; i++) { auto e = v.a.find(i + 1); if(e == v.a.end() || e->second.k != Val::BOOL || bool(e->second.i) != b(i)) return false; } return true; }
    if(t == DAX_CHAR && count > 1) { const char *p = (const char *)&D[bit / 8]; return v.k == Val::STR && v.s == std::string(p, strnlen(p, count)); }
    int z = (1 << (t & 15)) / 8; if(count <= 1) return match1(t, &D[bit / 8], v);
    if(v.k != Val::TAB || v.a.size() != count) return false; for(uint32_t i = 0; i < count; i++) { auto e = v.a.find(i + 1); if(e == v.a.end() || !match1(t, &D[bit / 8 + i * z], e->second)) return false; } return true;
}
enum { GOOD, BADV, VAGUE }; // BADV: not a value for this tag; VAGUE: what it leads to is not said
int worst(int a, int b) { return a == BADV || b == BADV ? BADV : std::max(a, b); }
int enc1(uint32_t t, const Val &v, uint8_t *d, uint8_t *k) {
    int z = (1 << (t & 15)) / 8; if(v.k != Val::INT && v.k != Val::NUM) return VAGUE;
    if(t == DAX_REAL) { double x = v.k == Val::INT ? (double)v.i : v.d; float f = (float)x; if((double)f != x) return VAGUE; memcpy(d, &f, 4); memset(k, 255, 4); return GOOD; }
    if(t == DAX_LREAL) { double x = v.k == Val::INT ? (double)v.i : v.d; memcpy(d, &x, 8); memset(k, 255, 8); return GOOD; }
    Lim l = lim(t); int64_t i; if(v.k == Val::INT) i = v.i; else { if(v.d != std::floor(v.d) || std::fabs(v.d) > 9e15) return VAGUE; i = (int64_t)v.d; }
    if(l.bits < 64 && (l.sgn ? i < -(1ll << (l.bits - 1)) || i >= 1ll << (l.bits - 1) : i < 0 || i >= 1ll << l.bits)) return VAGUE;
    if(l.bits == 64 && !l.sgn && i < 0) return VAGUE;
    memcpy(d, &i, z); memset(k, 255, z); return GOOD;
}
int enc(uint32_t t, uint32_t count, const Val &v, Bytes &D, Bytes &K, uint32_t bit) {
    if(t & DAX_CUSTOM) { MType *m = mt(t); if(v.k != Val::TAB) return v.k == Val::NIL ? VAGUE : BADV; int r = GOOD; if(count > 1) { for(uint32_t i = 0; i < count; i++) { auto e = v.a.find(i + 1); if(e != v.a.end()) r = worst(r, enc(t, 1, e->second, D, K, bit + i * m->size * 8)); } return r; }
        for(auto &x : m->m) { auto e = v.f.find(x.name); if(e != v.f.end()) r = worst(r, enc(x.type, x.count, e->second, D, K, bit + x.byte * 8 + x.bit)); } return r; }
    auto setb = [&](uint32_t i, const Val &e) { if(e.k != Val::BOOL) return (int)VAGUE; i += bit; K[i / 8] |= 1 << i % 8; if(e.i) D[i / 8] |= 1 << i % 8; else D[i / 8] &= ~(1 << i % 8); return (int)GOOD; };
    if(count <= 1) return t == DAX_BOOL ? setb(0, v) : enc1(t, v, &D[bit / 8], &K[bit / 8]);
    if(v.k == Val::STR) { if(t != DAX_CHAR) return VAGUE; if(v.s.size() > count) return VAGUE; memset(&D[bit / 8], 0, count); memcpy(&D[bit / 8], v.s.data(), v.s.size()); memset(&K[bit / 8], 255, count); return GOOD; }
    if(v.k != Val::TAB) return v.k == Val::NIL ? VAGUE : BADV;
    int r = GOOD, z = (1 << (t & 15)) / 8; for(uint32_t i = 0; i < count; i++) { auto e = v.a.find(i + 1); if(e == v.a.end()) continue; r = worst(r, t == DAX_BOOL ? setb(i, e->second) : enc1(t, e->second, &D[bit / 8 + i * z], &K[bit / 8 + i * z])); } return r;
}
Val gen1(uint32_t t, int st) {
    auto Q = [&](uint32_t n) { return choose(st, n); }; if(t == DAX_BOOL) return vb(Q(2));
    if(isreal(t)) { static const double x[] = {0.5, -0.125, 1e6, 3, -7.75, 1e-3}; if(Q(4) == 3) return vi((int)Q(2000) - 1000); double d = Q(2) ? (double)((int)Q(200000) - 100000) / 64 : x[Q(6)]; return vn(t == DAX_REAL ? (double)(float)d : d); }
    Lim l = lim(t); int64_t lo = l.sgn ? (l.bits == 64 ? INT64_MIN : -(1ll << (l.bits - 1))) : 0, hi = l.bits == 64 ? INT64_MAX : l.sgn ? (1ll << (l.bits - 1)) - 1 : (1ll << l.bits) - 1, v;
    switch(Q(6)) { case 0: v = Q(100); break; case 1: v = hi; break; case 2: v = lo; break; case 3: v = hi - Q(1000) % 100; break; case 4: v = l.sgn ? -(int64_t)(1 + Q(100)) : Q(5); break; default: v = (int64_t)choose64(st); if(l.bits < 64) v = lo + (int64_t)((uint64_t)v % (uint64_t)(hi - lo + 1)); else if(!l.sgn) v &= INT64_MAX; }
    if(Q(6) == 5 && std::llabs(v / 2) < 1ll << 51) return vn((double)v); return vi(v);
}
std::string text(int st, int n) { std::string s; for(int i = 0; i < n; i++) s += (char)(33 + choose(st, 90)); return s; }
Val gen(uint32_t t, uint32_t count, int st, bool whole) {
    auto Q = [&](uint32_t n) { return choose(st, n); };
    if(t & DAX_CUSTOM) { Val v = vt(); MType *m = mt(t); if(count > 1) { for(uint32_t i = 0; i < count; i++) if(whole || Q(4)) v.a[i + 1] = gen(t, 1, st, whole); } else for(auto &x : m->m) if(whole || Q(4)) v.f[x.name] = gen(x.type, x.count, st, whole); return v; }
    if(count <= 1) return gen1(t, st);
    if(t == DAX_CHAR && Q(4)) return vs(text(st, Q(count + 1)));
    Val v = vt(); for(uint32_t i = 0; i < count; i++) if(whole || Q(4)) v.a[i + 1] = gen1(t, st); if(Q(8) == 7) v.a[count + 1 + Q(3)] = vi(1); return v;
}
Val bad(uint32_t t, uint32_t count, int st) { switch(choose(st, 4)) { case 0: return vs(text(st, choose(st, 40))); case 1: return vi((int64_t)choose64(st)); case 2: return vt(); default: return vb(true); } }
// ---- what is configured
struct Tag { std::string name; uint32_t type = 0, count = 1; int idx = -1; usec made = -1; bool late = false; };
struct View { int tag = -1; uint32_t type = 0, count = 1, bit = 0; std::string ref; uint32_t size() const { return type == DAX_BOOL ? (bit % 8 + count + 7) / 8 : M.typesize(type) * count; } };
struct Glob { std::string var; View v; int mode; };
struct Trig { bool have = false; int tag = -1; View v; int type = 0; double value = 0; int shown = 0; uint64_t frames = 0; std::vector<Bytes> data; bool nodata = false; };
struct Pend { int tag; Bytes d, k; int kind; bool must; std::string what; };
struct Op { std::string op; Val a, b; };
struct Scr {
    int k; std::string name, file; int th = -1; bool enable = true, fail = true, autorun = true; Trig tr, en, dis; std::vector<Glob> g; std::vector<std::pair<std::string, Val>> st;
    lua_State *L = nullptr; bool running = false; uint64_t runs = 0, ends = 0; usec begin = -1, end = -1; int64_t tscan = 0; bool failed = false, on = true, done = false; int left = 0; std::deque<Op> plan; Op cur; std::vector<Pend> pend; std::deque<Pend> opp; usec opt = 0; int wtag = -1; uint64_t offruns = 0; usec opstart = 0; usec nap = 0, napdone = 0; bool firstdata = false; double wmax = 0; usec waited = 0;
};
struct Thr { std::string name; int interval; std::vector<Scr *> s; usec cyc = -1; int last = -1; usec work = 0; };
struct Rd { usec t; uint32_t off; Bytes d; };
std::vector<Scr *> sc; std::vector<Thr> thr; std::vector<Tag> tags; std::map<int, Trig *> evtag; std::map<int, std::deque<Rd>> reads; Proc *lp; Wire *lw; bool calm, chaos, stopped, ending; usec started; int ssleep; uint64_t g_runs; int tidx(int t) { if(tags[t].idx < 0) tags[t].idx = M.find(tags[t].name); return tags[t].idx; }
Scr *byname(const std::string &n) { for(auto s : sc) if(s->name == n) return s; return nullptr; }
int mktag(const std::string &n, uint32_t type, uint32_t count, bool late) { Tag t; t.name = n; t.type = type; t.count = count; t.late = late; tags.push_back(t); return tags.size() - 1; }
View whole(int tag) { View v; v.tag = tag; v.type = tags[tag].type; v.count = tags[tag].count; v.ref = tags[tag].name; return v; }
View part(int tag, int st) { // the tag or something in it
    View v = whole(tag); if(choose(st, 2)) return v;
    if(v.count > 1 && choose(st, 2)) { int i = choose(st, v.count); v.ref += "[" + std::to_string(i) + "]"; v.bit = v.type == DAX_BOOL ? i : i * M.typesize(v.type) * 8; v.count = 1; }
    if((v.type & DAX_CUSTOM) && v.count == 1) { MType *m = mt(v.type); auto &x = m->m[choose(st, m->m.size())]; v.ref += "." + x.name; v.bit += x.byte * 8 + x.bit; v.type = x.type; v.count = x.count; }
    return v;
}
// ---- the scripts' side
bool readok(const View &v, usec since, const Val &x, std::string &why) { // x is what an answer to a read made since then says
    int idx = tidx(v.tag); why = "no read"; if(idx < 0) return false;
    for(auto i = reads[idx].rbegin(); i != reads[idx].rend() && i->t >= since; ++i) { if(i->off * 8 > v.bit || (i->off + i->d.size()) * 8 < v.bit + (v.type == DAX_BOOL ? v.count : v.size() * 8)) continue; if(match(v.type, v.count, i->d, v.bit - i->off * 8, x)) return true; why = "the server said " + hex(i->d) + " from byte " + std::to_string(i->off); }
    return false;
}
Val global(lua_State *L, const std::string &n) { lua_getglobal(L, n.c_str()); Val v = pull(L, -1); lua_pop(L, 1); return v; }
bool existed(int tag, usec when) { return tidx(tag) >= 0 && tags[tag].made >= 0 && tags[tag].made < when; }
Pend mkpend(const View &v, const Val &x, bool must, const std::string &what) { Pend p; p.tag = v.tag; p.must = must; p.what = what; int idx = tidx(v.tag); uint32_t n = idx >= 0 ? M.db[idx].data.size() : 1; p.d.assign(n + 8, 0); p.k.assign(n + 8, 0); p.kind = idx >= 0 ? enc(v.type, v.count, x, p.d, p.k, v.bit) : VAGUE; p.d.resize(n); p.k.resize(n); bool any = false; for(auto b : p.k) any |= b; if(p.kind != GOOD || !any) p.must = false; return p; }
void begin(Scr *s, lua_State *L) {
    if(s->L && s->L != L) violation("[identity] script %s has two interpreters", s->name.c_str()); s->L = L; auto nm = s->name.c_str();
    if(s->running) violation("[overlap] script %s was started while it was running", nm);
    for(auto &p : s->pend) if(p.must) violation("[unwritten] script %s: %s was not written before its next run", nm, p.what.c_str()); s->pend.clear();
    if(s->failed && s->fail) violation("[failed] script %s ran although it had failed", nm);
    if(calm && !s->on) violation("[disabled] script %s ran although it is disabled", nm);
    if(calm && stopped) violation("[stopped] script %s ran although the module was told to stop", nm);
    usec since = s->end < 0 ? 0 : s->end; int64_t ex = lua_tointeger(L, 3), tsn = lua_tointeger(L, 4), lsn = lua_tointeger(L, 5), iv = lua_tointeger(L, 6);
    if(ex != (int64_t)s->runs) violation("[executions] get_executions() of %s says %lld, it ran %llu times", nm, (long long)ex, (unsigned long long)s->runs);
    if(tsn > now || tsn < since) violation("[times] get_thisscan() of %s is %lld, its last run ended at %lld, it is %lld now", nm, (long long)tsn, (long long)since, (long long)now);
    if(s->runs && lsn != s->tscan) violation("[times] get_lastscan() of %s is %lld, its last run started at %lld", nm, (long long)lsn, (long long)s->tscan);
    if(iv != (s->runs ? tsn - s->tscan : 0)) violation("[times] get_interval() of %s is %lld after %lld us", nm, (long long)iv, (long long)(s->runs ? tsn - s->tscan : 0)); s->tscan = tsn;
    const char *fn = lua_tostring(L, 7); if(!fn || s->file != fn) violation("[identity] get_filename() of %s", nm);
    Val v = global(L, "_firstrun"); if(v.k != Val::BOOL || v.i != (s->runs == 0)) violation("[firstrun] _firstrun of %s is %s in run %llu", nm, show(v).c_str(), (unsigned long long)s->runs);
    v = global(L, "kept"); if(s->runs ? v.k != Val::INT || v.i != (int64_t)s->runs : v.k != Val::NIL) violation("[kept] a variable of script %s is %s after %llu runs", nm, show(v).c_str(), (unsigned long long)s->runs);
    for(auto &x : s->st) { v = global(L, x.first); if(!same(v, x.second)) violation("[static] %s of script %s is %s, configured is %s", x.first.c_str(), nm, show(v).c_str(), show(x.second).c_str()); }
    for(auto &g : s->g) if(g.mode & 1) { v = global(L, g.var); std::string why; if(v.k == Val::NIL) { if(existed(g.v.tag, s->runs ? s->begin : started)) violation("[not-read] %s (%s) of script %s is nil", g.var.c_str(), g.v.ref.c_str(), nm); } else { if(!readok(g.v, since, v, why)) { if(!existed(g.v.tag, s->runs ? s->begin : started)) continue; violation("[read-value] %s of script %s is %s, tag %s: %s", g.var.c_str(), nm, show(v).c_str(), g.v.ref.c_str(), why.c_str()); } count("globals read"); } }
    v = global(L, "_trigger_data"); if(v.k != Val::NIL) { bool ok = false; auto &t = s->tr; if(t.have) for(auto i = t.data.rbegin(); i != t.data.rend() && !ok; ++i) { ok = match(t.v.type, t.v.count, *i, t.v.bit % 8, v); if(calm && s->waited == 1) break; } if(!ok) violation("[trigger-data] _trigger_data of script %s is %s, %zu events, the last one had %s", nm, show(v).c_str(), t.data.size(), t.data.size() ? hex(t.data.back()).c_str() : "-"); count("trigger data"); }
    else if(calm && s->waited == 1 && s->th < 0 && s->tr.frames && !s->tr.nodata) violation("[trigger-data] _trigger_data of script %s is nil in a run by an event", nm);
    if(s->th < 0 && s->tr.have) { uint64_t may = s->tr.frames + s->autorun; if(s->runs + 1 > may) violation("[extra-run] script %s runs the %lluth time, %llu events came", nm, (unsigned long long)s->runs + 1, (unsigned long long)s->tr.frames); } else if(s->th < 0) violation("[extra-run] script %s has no reason to run", nm);
    s->running = true; s->begin = now; s->runs++; g_runs++; s->left = calm ? 6 : 4; s->nap = 0; s->done = false;
    if(s->th >= 0 && calm && !s->tr.have) { Thr &t = thr[s->th]; int at = std::find(t.s.begin(), t.s.end(), s) - t.s.begin(), f = 0; while(f < at && (!t.s[f]->on || t.s[f]->failed)) f++; if(t.cyc < 0 && at != f) {} else if(at <= t.last || t.cyc < 0) { if(t.cyc >= 0 && now - t.cyc < t.interval * MS - 12 * MS) { bool both = false; for(auto x : t.s) both |= x->tr.have; if(!both) violation("[too-early] thread %s: script %s starts a round %lld ms after the one before it (interval %d ms)", t.name.c_str(), nm, (long long)(now - t.cyc) / MS, t.interval); } t.cyc = now; t.last = at; } else t.last = at; }
    count("script runs"); nontrivial(); trace("script %s begins (run %llu)", nm, (unsigned long long)s->runs);
}
void ended(Scr *s, bool err) { // what is written afterwards
    s->running = false; s->end = now; s->ends++; lua_State *L = s->L; if(err && s->fail) s->failed = true; trace("script %s ends%s", s->name.c_str(), err ? " with an error" : ""); mix(s->k * 2 + err);
    for(auto &g : s->g) if(g.mode & 2) { Val v = global(L, g.var); Pend p = mkpend(g.v, v, existed(g.v.tag, s->runs > 1 ? s->tscan : started), g.var + " = " + show(v).substr(0, 150) + " for " + g.v.ref); s->pend.push_back(p); }
}
View opview(Scr *s) { View v = part(s->wtag, ST_CFG + 0); return v; }
int obs(lua_State *L) {
    if(ending) return 0; const char *w = luaL_checkstring(L, 1); Scr *s = nullptr;
    if(*w == 'b') { const char *n = lua_tostring(L, 2); s = n ? byname(n) : nullptr; if(!s) violation("[identity] get_name() says %s", n ? n : "nil"); begin(s, L); return 0; }
    for(auto x : sc) if(x->L == L) s = x; if(!s || !s->running) harness_error("script"); int st = ST_ACTOR0 + 20 + s->k % 8;
    auto Q = [&](uint32_t n) { return choose(st, n); };
    std::string r = w; Op &c = s->cur;
    if(r == "r") { Val v = pull(L, 2), want; if(c.op == "snm") { int64_t i = c.a.i; if(i >= 0 && i < (int64_t)sc.size()) want = vs(sc[i]->name); } else { Scr *o = nullptr; if(c.a.k == Val::STR) o = byname(c.a.s); else if(c.a.i >= 0 && c.a.i < (int64_t)sc.size()) o = sc[c.a.i]; if(o) want = vi(o->k); } if(!same(v, want)) violation("[function] %s(%s) in script %s returned %s, expected %s", c.op.c_str(), show(c.a).c_str(), s->name.c_str(), show(v).c_str(), show(want).c_str()); count("functions"); return 0; }
    if(r == "rd") { bool ok = lua_toboolean(L, 2); Val v = pull(L, 3); int t = s->wtag; (void)t; View &vw = *(View *)c.b.i; if(!ok) { if(existed(vw.tag, s->opt)) violation("[refused] tag_read(%s) in script %s failed: %s", vw.ref.c_str(), s->name.c_str(), show(v).c_str()); } else { std::string why; if(!readok(vw, s->opt, v, why)) violation("[read-value] tag_read(%s) in script %s returned %s: %s", vw.ref.c_str(), s->name.c_str(), show(v).c_str(), why.c_str()); count("tag_read"); } return 0; }
    if(r == "wr") { bool ok = lua_toboolean(L, 2); Val v = pull(L, 3); if(s->opp.size()) { Pend p = s->opp.front(); if(ok && p.must) violation("[unwritten] %s in script %s was not written", p.what.c_str(), s->name.c_str()); if(!ok && p.must) violation("[refused] %s in script %s failed: %s", p.what.c_str(), s->name.c_str(), show(v).c_str()); if(ok && p.kind == BADV) violation("[accepted] %s in script %s was accepted", p.what.c_str(), s->name.c_str()); s->opp.clear(); } count("tag_write"); return 0; }
    // what next
    if(s->plan.size()) { c = s->plan.front(); s->plan.pop_front(); }
    else if(s->left-- <= 0 || Q(3) == 0) { c = Op(); }
    else { c = Op(); int k = Q(chaos ? 13 : 9);
        auto wv = [&](Val x) { View v = part(s->wtag, st); c.op = "wr"; c.a = vs(v.ref); c.b = x.k == Val::OTHER ? bad(v.type, v.count, st) : gen(v.type, v.count, st, false); s->opp.clear(); s->opp.push_back(mkpend(v, c.b, existed(v.tag, now), "tag_write(" + v.ref + ", " + show(c.b).substr(0, 150) + ")")); };
        if(k < 2) { c.op = "sleep"; int m = ssleep; if(s->th >= 0 && thr[s->th].s.size()) m = chaos ? std::min<int>(m, thr[s->th].interval) : std::max<int>(0, std::min<int>(m, thr[s->th].interval / 3 / thr[s->th].s.size() - s->nap / MS)); c.a = vi(Q(m + 1)); s->nap += c.a.i * MS; }
        else if(k < 4 && s->g.size()) { Glob &g = s->g[Q(s->g.size())]; c.op = "set"; c.a = vs(g.var); c.b = Q(12) == 11 ? bad(g.v.type, g.v.count, st) : gen(g.v.type, g.v.count, st, Q(3)); }
        else if(k == 4 && s->st.size()) { c.op = "set"; c.a = vs(s->st[Q(s->st.size())].first); c.b = gen1(DAX_DINT, st); }
        else if(k == 5) { Val x; if(Q(8) == 7) x.k = Val::OTHER; wv(x); }
        else if(k == 6) { std::vector<int> l; for(size_t i = 0; i < tags.size(); i++) if(tags[i].type && tags[i].name[0] == 'i') l.push_back(i); int t = Q(3) && l.size() ? l[Q(l.size())] : s->wtag; View *v = new View(part(t, st)); c.op = "rd"; c.a = vs(v->ref); c.b.k = Val::NIL; c.b.i = (int64_t)v; s->opt = now; }
        else if(k == 7) { c.op = Q(2) ? "snm" : "sid"; if(c.op == "snm") c.a = vi((int)Q(sc.size() + 4) - 2); else c.a = Q(4) ? vs(sc[Q(sc.size())]->name) : vs("nobody"); }
        else if(k == 8) { c.op = "perr"; c.a = vs("caught"); }
        else if(k == 9 && Q(4) == 0) { c.op = "ds"; }
        else if(k >= 10 && k < 12 && Q(3) == 0) { Scr *o = sc[Q(sc.size())]; c.op = Q(3) ? "en" : "dis"; if(o == s) c.op = "en"; c.a = Q(2) ? vs(o->name) : vi(o->k); }
        else if(k == 12 && (Q(6) == 0 || (!s->fail && Q(2)))) { c.op = "err"; c.a = Q(3) ? vs("planned") : vt(); }
        else { c.op = "nop"; } }
    if(c.op.empty() || c.op == "err") { lua_pushinteger(L, s->runs); lua_setglobal(L, "kept"); s->done = true; ended(s, c.op == "err"); if(c.op.empty()) { lua_pushnil(L); return 1; } count("script errors"); }
    lua_pushstring(L, c.op.c_str()); push(L, c.a); push(L, c.op == "rd" ? Val() : c.b); return 3;
}
const char *SCRIPT = "obs('b', get_name(), get_executions(), get_thisscan(), get_lastscan(), get_interval(), get_filename())\n"
    "local op,a,b = obs('n')\nwhile op do\n if op=='sleep' then sleep(a)\n elseif op=='set' then _G[a]=b\n elseif op=='err' then error(a)\n elseif op=='perr' then pcall(error,a)\n elseif op=='ds' then disable_self()\n"
    " elseif op=='en' then obs('r',enable_script(a))\n elseif op=='dis' then obs('r',disable_script(a))\n elseif op=='sid' then obs('r',get_script_id(a))\n elseif op=='snm' then obs('r',get_script_name(a))\n"
    " elseif op=='rd' then obs('rd',pcall(tag_read,a))\n elseif op=='wr' then obs('wr',pcall(tag_write,a,b))\n end\n op,a,b = obs('n')\nend\n";
void attach() {
    lua_new_hook = [](lua_State *L) { if(cur->proc == lp) { lua_pushcfunction(L, obs); lua_setglobal(L, "obs"); } };
    auto a0 = on_answer; on_answer = [a0](Wire *w, const Frame &q, const Frame &r) {
        if(a0) a0(w, q, r); if(!lp) return; if(!lw) lw = wire_of_proc(lp); if(w != lw || r.cmd & RERR & ~RSP) return; if((r.cmd & 0xff000000u) == RERR) return;
        if(q.cmd == C_READ && q.d.size() >= 12) { int idx; uint32_t off; memcpy(&idx, &q.d[0], 4); memcpy(&off, &q.d[4], 4); auto &l = reads[idx]; l.push_back({now, off, r.d}); if(l.size() > 200) l.pop_front(); }
        if((q.cmd == C_WRITE || q.cmd == C_MWRITE) && !ending) {
            int idx; memcpy(&idx, &q.d[0], 4); int t = -1; for(size_t i = 0; i < tags.size(); i++) if(tidx(i) == idx) t = i; if(t < 0) return;
            const Bytes &a = M.prev, &b = M.db[idx].data; std::string why; bool ok = false, any = false;
            uint32_t o = 0; if(q.d.size() >= 8) memcpy(&o, &q.d[4], 4); uint32_t z = q.d.size() < 8 ? 0 : (q.d.size() - 8) / (q.cmd == C_MWRITE ? 2 : 1); // long ones are written in parts
            if(q.cmd == C_MWRITE && q.d.size() >= 8 + 2 * z && std::all_of(q.d.begin() + 8 + z, q.d.end(), [](uint8_t x) { return !x; })) return; // the rest of one of these
            auto fits = [&](Pend &p) { if(p.tag != t) return false; any = true; if(p.kind != GOOD) { return true; } for(size_t i = 0; i < b.size(); i++) { uint8_t k = i >= o && i < o + z ? p.k[i] : 0, want = (a[i] & ~k) | (p.d[i] & k); if(b[i] != want) { why = p.what + ": byte " + std::to_string(i) + " is " + std::to_string(b[i]) + ", expected " + std::to_string(want); return false; } } return true; };
            auto done = [&](Pend &p) { if(p.kind != GOOD) return false; for(size_t i = o; i < o + z && i < p.k.size(); i++) p.k[i] = 0; for(auto x : p.k) if(x) return false; return true; };
            for(auto s : sc) { for(size_t i = 0; i < s->opp.size() && !ok; i++) if(s->running && fits(s->opp[i])) { ok = true; if(done(s->opp[i])) s->opp[i].must = false; } for(size_t i = 0; i < s->pend.size() && !ok; i++) if(!s->running && fits(s->pend[i])) { ok = true; if(done(s->pend[i])) s->pend.erase(s->pend.begin() + i); } }
            if(!ok) violation(any ? "[write-value] tag %s: %s" : "[unasked-write] tag %s was written %s", tags[t].name.c_str(), any ? why.c_str() : hex(q.d).c_str()); count("values written"); } };
    auto e0 = on_event_frame; on_event_frame = [e0](Wire *w, const Ev &e) { e0(w, e); if(!lw && lp) lw = wire_of_proc(lp); if(w != lw || !evtag.count(e.idx)) return; Trig *t = evtag[e.idx]; t->frames++; if(e.data.size()) { t->data.push_back(e.data); if(t->data.size() > 300) t->data.erase(t->data.begin()); } else t->nodata = true; };
}
bool hasev(const Trig &t) { int i = M.find(tags[t.tag].name); if(i < 0) return false; for(auto &e : M.db[i].events) if(e.w == lw) return true; return false; }
// ---- the other module
struct Hmi {
    Client *c; int st; uint32_t Q(uint32_t n) { return choose(st, n); }
    void add(int t) { tag_handle h; if(api_add(c, tags[t].name, tags[t].type, tags[t].count, 0, &h)) violation("[setup] tag add"); tags[t].idx = h.index; tags[t].made = now; }
    void wr(const View &v, const Val &x) { // as a user would write it
        int idx = tidx(v.tag); uint32_t n = M.db[idx].data.size(); Bytes d(n + 8, 0), k(n + 8, 0); if(enc(v.type, v.count, x, d, k, v.bit) == BADV) return; uint32_t o = v.bit / 8, z = v.size(); Bytes dd(d.begin() + o, d.begin() + o + z), kk(k.begin() + o, k.begin() + o + z);
        tag_handle h = H(idx, o, 0, 1, z, DAX_BYTE); h.count = z; api_mask(c, h, dd, kk); }
    void in() { std::vector<int> l; for(size_t i = 0; i < tags.size(); i++) if(tags[i].name[0] == 'i' && tags[i].made >= 0) l.push_back(i); if(l.empty()) return; View v = part(l[Q(l.size())], st); wr(v, gen(v.type, v.count, st, false)); count("input changes"); }
    void fire(Trig &t) { // makes at least one event
        if(tags[t.tag].made < 0) return; uint64_t f0 = t.frames; Val a, b; View v = t.v; t.shown++;
        auto num = [&](double x) { return isreal(v.type) ? vn(x) : vi((int64_t)x); };
        switch(t.type) {
            case EVENT_SET: case EVENT_RESET: { bool s = t.type == EVENT_SET; if(v.count == 1) { a = vb(!s); b = vb(s); } else { a = vt(); b = vt(); for(uint32_t i = 0; i < v.count; i++) a.a[i + 1] = vb(!s); b.a[1 + Q(v.count)] = vb(s); } wr(v, a); wr(v, b); break; }
            case EVENT_EQUAL: wr(v, num(t.value + 1)); wr(v, num(t.value)); break; case EVENT_GREATER: wr(v, num(t.value)); wr(v, num(t.value + 1 + Q(9))); break; case EVENT_LESS: wr(v, num(t.value)); wr(v, num(t.value - 1 - (double)Q(9))); break;
            case EVENT_DEADBAND: wr(v, num(t.shown % 2 ? 100 : 30)); break;
            case EVENT_CHANGE: { View e = v; for(int i = 0; i < 20; i++) { Bytes was = M.db[tidx(v.tag)].data; wr(v, gen(v.type, v.count, st, i > 5)); if(M.db[tidx(v.tag)].data != was) break; } break; }
            default: wr(v, gen(v.type, v.count, st, true)); }
        (void)f0; count("triggers fired"); }
    void tagenable(Scr *s, bool on) { int i = M.find("daxlua_scripts"); if(i < 0) return; api_write(c, H(i, s->k * 41 + 32, 0, 1, 1, DAX_BOOL), {(uint8_t)on}); count("enabled by tag"); }
    void module(int bit) { int i = M.find("_mdaxlua"); api_mask(c, H(i, 77, 0, 1, 1, DAX_BYTE), {(uint8_t)(1 << bit)}, {(uint8_t)(1 << bit)}); }
    void alive() { if(!lp->alive) violation("[exit] the Lua module ended: %s", lp->death.c_str()); }
    usec longest() { usec m = 0; for(auto &t : thr) m = std::max<usec>(m, t.interval * MS); return m; }
    void settle(usec d) { sleep_us(d); alive(); }
    void idle() { wait_until([] { if(!lp->alive) return true; for(auto s : sc) if(s->running && s->th < 0) return false; return true; }, 60 * S, "idle"); settle(300 * MS); }
    // every one of these events must run its script once
    void events(std::vector<Scr *> l) {
        std::map<Scr *, std::pair<uint64_t, uint64_t>> b; for(auto s : l) b[s] = {s->runs, s->tr.frames}; for(auto s : l) s->waited = std::count(l.begin(), l.end(), s);
        std::map<Scr *, bool> was; for(auto s : l) was[s] = s->on && !s->failed && !stopped; for(auto s : l) fire(s->tr);
        auto could = [&](Scr *s) { return was[s] ? s->tr.frames - b[s].second : 0; };
        auto want = [&](Scr *s) { return was[s] && !s->failed ? s->tr.frames - b[s].second : 0; };
        for(auto &x : b) if(x.first->tr.frames == x.second.second) harness_error("no event for type %d", x.first->tr.type); for(auto &x : b) if(x.first->tr.frames - x.second.second != 1) x.first->waited = 2;
        bool ok = wait_until([&] { if(!lp->alive) return true; for(auto &x : b) if(x.first->runs - x.second.first < want(x.first) || x.first->running) return false; return true; }, 20 * S, "triggered scripts"); alive();
        if(!ok) for(auto &x : b) { if(x.first->running) violation("[stuck] script %s does not end", x.first->name.c_str()); if(x.first->runs - x.second.first < want(x.first)) violation("[missed] script %s ran %llu times after %llu events of its trigger", x.first->name.c_str(), (unsigned long long)(x.first->runs - x.second.first), (unsigned long long)(x.first->tr.frames - x.second.second)); }
        settle(100 * MS); for(auto &x : b) if(x.first->th < 0 && x.first->runs - x.second.first > could(x.first)) violation("[extra-run] script %s ran %llu times after %llu events of its trigger", x.first->name.c_str(), (unsigned long long)(x.first->runs - x.second.first), (unsigned long long)could(x.first));
        for(auto s : l) s->waited = 0; count("events checked", l.size());
    }
    void all_events() { for(auto s : sc) if(s->tr.have && s->th < 0) events({s}); }
    void check_tags(bool cmds) { // the tags that show the scripts and threads
        int i = M.find("daxlua_scripts"), j = M.find("daxlua_threads"); if(i < 0 || (thr.size() && j < 0)) violation("[tag] the tags of the module do not exist");
        if(M.db[i].count != sc.size()) violation("[tag] daxlua_scripts has %u elements, %zu scripts are configured", M.db[i].count, sc.size());
        for(auto s : sc) { const Bytes &d = M.db[i].data; const uint8_t *p = &d[s->k * 41]; auto nm = s->name.c_str(); std::string n((const char *)p, strnlen((const char *)p, 32)); if(n != s->name) violation("[tag] daxlua_scripts[%d].name is %s, the script is %s", s->k, n.c_str(), nm);
            uint64_t ex = ldn(p + 33, 8); if(ex > s->runs || ex + (s->th >= 0 ? 1 : 0) < s->runs) violation("[tag] daxlua_scripts[%d].executions is %llu, script %s ran %llu times", s->k, (unsigned long long)ex, nm, (unsigned long long)s->runs);
            if(cmds && bool(p[32] & 1) != s->on) violation("[tag] daxlua_scripts[%d].enable is %d, script %s is %s", s->k, p[32] & 1, nm, s->on ? "enabled" : "disabled");
            if(bool(p[32] & 2) != s->failed) violation("[tag] daxlua_scripts[%d].failed is %d, script %s %s", s->k, p[32] >> 1 & 1, nm, s->failed ? "failed" : "did not fail"); }
        for(size_t t = 0; t < thr.size(); t++) { const uint8_t *p = &M.db[j].data[t * 44]; std::string n((const char *)p, strnlen((const char *)p, 32)); if(n != thr[t].name || ldn(p + 32, 4) != (uint64_t)thr[t].interval || ldn(p + 36, 4) != thr[t].s.size()) violation("[tag] daxlua_threads[%zu] is %s, %llu, %llu", t, n.c_str(), (unsigned long long)ldn(p + 32, 4), (unsigned long long)ldn(p + 36, 4)); }
        count("tags checked"); }
    uint64_t overruns(int t) { int j = M.find("daxlua_threads"); return ldn(&M.db[j].data[t * 44 + 40], 4); }
    void window() { // the intervals
        if(thr.empty()) return; usec W = std::min<usec>(20 * S, longest() * 10 + 500 * MS), t0 = now; std::vector<uint64_t> r0, e0, o0; for(auto s : sc) { r0.push_back(s->runs); e0.push_back(s->tr.frames); } for(size_t t = 0; t < thr.size(); t++) o0.push_back(overruns(t));
        settle(W); usec span = now - t0;
        for(size_t i = 0; i < sc.size(); i++) { Scr *s = sc[i]; if(s->th < 0) continue; bool run = s->on && !s->failed && !stopped; uint64_t n = s->runs - r0[i], iv = thr[s->th].interval * MS, ev = s->tr.frames - e0[i];
            uint64_t hi = span / iv + 2 + ev, lo = span / (iv + iv / 50 + 6 * MS); lo = lo > 2 ? lo - 2 : 0;
            if(!run) { if(n) violation("[disabled] script %s ran %llu times", s->name.c_str(), (unsigned long long)n); continue; }
            if(n > hi) violation("[too-often] script %s ran %llu times in %lld ms, its interval is %lld ms", s->name.c_str(), (unsigned long long)n, (long long)span / MS, (long long)iv / MS);
            if(n < lo) violation("[too-seldom] script %s ran %llu times in %lld ms, its interval is %lld ms", s->name.c_str(), (unsigned long long)n, (long long)span / MS, (long long)iv / MS);
            count("intervals checked"); }
        for(size_t t = 0; t < thr.size(); t++) { bool both = false; for(auto x : thr[t].s) both |= x->tr.have; if(!both && overruns(t) != o0[t]) violation("[overrun] thread %s counted overruns, its scripts take a part of its interval", thr[t].name.c_str()); }
    }
};
std::string lit(const Val &v) { switch(v.k) { case Val::STR: { std::string r = "\""; for(unsigned char c : v.s) { char b[8]; snprintf(b, 8, "\\%03d", c); r += b; } return r + "\""; } case Val::INT: if(v.i == INT64_MIN) return "(-9223372036854775807-1)"; return std::to_string(v.i); default: return show(v); } }
std::string lit(const Trig &t) { static const char *n[] = {"", "READ", "WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND"}; char b[200]; snprintf(b, 200, "{tag=\"%s\", count=%d, type=\"%s\", value=%.17g}", t.v.ref.c_str(), R(2) ? 0 : (int)t.v.count, n[t.type], t.value); return b; }
uint32_t anytype(int n) { static const uint32_t ty[] = {DAX_INT, DAX_BOOL, DAX_REAL, DAX_DINT, DAX_CHAR, DAX_UINT, DAX_LINT, DAX_ULINT, DAX_LREAL, DAX_BYTE, DAX_SINT, DAX_WORD, DAX_DWORD, DAX_UDINT, DAX_LWORD, DAX_TIME}; uint32_t k = R(16 + n); return k < 16 ? ty[k] : DAX_CUSTOM | (M.types.size() - 1 - (k - 16)); }
uint32_t anycount(uint32_t t) { return R(2) ? 1 : t & DAX_CUSTOM ? 2 + R(3) : 2 + R(t == DAX_BOOL || t == DAX_CHAR ? 30 : 10); }
Trig mktrig(const std::string &n, bool late) {
    Trig t; t.have = true; uint32_t ty; static const int be[] = {EVENT_SET, EVENT_CHANGE, EVENT_WRITE, EVENT_RESET}, ne[] = {EVENT_CHANGE, EVENT_WRITE, EVENT_EQUAL, EVENT_GREATER, EVENT_LESS, EVENT_DEADBAND};
    ty = anytype(2); uint32_t cnt = anycount(ty); if(ty == DAX_BOOL) t.type = be[R(4)]; else if(ty & DAX_CUSTOM || ty == DAX_CHAR || ty == DAX_TIME) t.type = R(2) ? EVENT_CHANGE : EVENT_WRITE; else do t.type = ne[R(6)]; while(isreal(ty) && t.type == EVENT_EQUAL);
    t.tag = mktag(n, ty, cnt, late); t.v = whole(t.tag); if(t.type >= EVENT_EQUAL || R(3) == 0) { if(cnt > 1) { int i = R(cnt); t.v.ref += "[" + std::to_string(i) + "]"; t.v.bit = ty == DAX_BOOL ? i : i * M.typesize(ty) * 8; t.v.count = 1; } }
    if(t.type >= EVENT_EQUAL && t.type <= EVENT_LESS) { Lim l = lim(ty); t.value = isreal(ty) ? 12.5 + R(100) : 20 + R(80); if(!isreal(ty) && l.bits >= 32 && R(2)) t.value = 100000 + R(1000000); } else if(t.type == EVENT_DEADBAND) t.value = 5 + R(20);
    return t;
}
void c21() {
    world_init(); model_attach(); swarm_net(); cfg.delay_max = std::min(cfg.delay_max, 3); cfg.p_eintr = R(3) == 2 ? 0.02 : 0; cfg.step_budget = 60 * 1000 * 1000; cfg.edge_budget *= 10;
    sc.clear(); thr.clear(); tags.clear(); evtag.clear(); reads.clear(); lp = nullptr; lw = nullptr; calm = stopped = false; chaos = true; ending = false; g_runs = 0; attach();
    mark_root(spawn("ctl", [] {
        start_server(); bool many = R(8) == 5; int nt = R(4), ns = many ? 14 + R(16) : 1 + R(5); static const int iv[] = {200, 50, 1000, 500, 100, 2000}; static const int slp[] = {30, 0, 200, 5}; ssleep = slp[R(4)]; int workers = 1 + R(4), qsize = R(3) ? 1 + R(6) : 16;
        std::string *conf = new std::string; int *ready = new int(0);
        Client *hc = run_client(0, "hmi", [=](Client *c) {
            Hmi h{c, c->stream};
            for(int i = 0; i < 2; i++) { std::vector<MMember> m; int n = 1 + R(5); for(int j = 0; j < n; j++) { uint32_t t = anytype(i); m.push_back({"m" + std::to_string(j), t, R(2) ? 1 : 2 + R(t & DAX_CUSTOM ? 2 : 11)}); } if(!api_cdt(c, "ty" + std::to_string(i), m)) violation("[setup] type"); }
            for(int i = 0; i < nt; i++) { Thr t; t.name = "th" + std::to_string(i); t.interval = iv[R(6)]; thr.push_back(t); }
            int nin = 1 + R(5); for(int i = 0; i < nin; i++) { uint32_t t = anytype(2); mktag("in" + std::to_string(i), t, anycount(t), R(6) == 5); }
            std::string &L = *conf; L += "event_thread_count = " + std::to_string(workers) + "\nevent_queue_size = " + std::to_string(qsize) + "\n"; for(auto &t : thr) L += "add_interval_thread(\"" + t.name + "\", " + std::to_string(t.interval) + ")\n";
            std::string file = memfile(SCRIPT);
            for(int k = 0; k < ns; k++) {
                Scr *s = new Scr; s->k = k; std::string id = std::to_string(k); s->name = R(2) ? "script" + id : text(ST_CFG, 1 + R(20)) + id; for(auto &ch : s->name) if(ch == '"' || ch == '\\') ch = '_'; s->file = file; s->enable = s->on = R(5) < 4; s->fail = R(2); s->autorun = R(2);
                int kind = R(10); if(nt && kind < 5) s->th = R(nt); if(kind >= 4 || s->th < 0) s->tr = mktrig("tr" + id, R(5) == 4); if(s->th >= 0 && kind < 4) s->tr = Trig(); if(R(4) == 3) s->en = mktrig("en" + id, R(5) == 4); if(R(4) == 3) s->dis = mktrig("ds" + id, R(5) == 4);
                uint32_t t = anytype(2); s->wtag = mktag("x" + id, t, anycount(t), false);
                int ng = many ? R(2) : R(4); for(int i = 0; i < ng; i++) { Glob g; g.var = "g" + std::to_string(i); g.mode = 1 + R(3); if(g.mode == 1) g.v = part(R(nin), ST_CFG); else { uint32_t t = anytype(2); g.v = part(mktag("o" + id + "_" + std::to_string(i), t, anycount(t), R(6) == 5), ST_CFG); } s->g.push_back(g); }
                int nst = many ? 0 : R(3); for(int i = 0; i < nst; i++) s->st.push_back({"s" + std::to_string(i), R(3) == 0 ? vs(text(ST_CFG, R(20))) : R(3) == 0 ? vb(R(2)) : gen1(R(2) ? DAX_LINT : DAX_LREAL, ST_CFG)});
                if(s->th >= 0) thr[s->th].s.push_back(s); sc.push_back(s);
                L += "s={} s.name=\"" + s->name + "\" s.filename=\"" + s->file + "\" s.enable=" + (s->enable ? "true" : "false") + " s.fail_on_error=" + (s->fail ? "true" : "false") + " s.auto_run=" + (s->autorun ? "true" : "false"); if(s->th >= 0) L += " s.thread=\"" + thr[s->th].name + "\"";
                if(s->tr.have) L += " s.trigger=" + lit(s->tr); if(s->en.have) L += " s.enable_trigger=" + lit(s->en); if(s->dis.have) L += " s.disable_trigger=" + lit(s->dis); L += "\nadd_script(s)\n"; static const char *md[] = {"", "READ", "WRITE", "READ + WRITE"};
                for(auto &g : s->g) L += "add_global_tag(s.name, \"" + g.var + "\", \"" + g.v.ref + "\", " + md[g.mode] + ")\n"; for(auto &x : s->st) L += "add_global_static(s.name, \"" + x.first + "\", " + lit(x.second) + ")\n"; }
            for(size_t i = 0; i < tags.size(); i++) if(!tags[i].late) h.add(i); *ready = 1;
            for(auto s : sc) for(Trig *t : {&s->tr, &s->en, &s->dis}) if(t->have && tags[t->tag].idx >= 0) evtag[tags[t->tag].idx] = t;
            wait_until([] { return lp && (!lp->alive || lw); }, 60 * S, "module"); if(!lp || !lp->alive || !lw) violation("[start] the Lua module did not start (%s)", lp ? lp->death.c_str() : "");
            // anything goes
            int n = 0; bool late = false; while(n++ < 40 && more(c->stream, 0.04)) { sleep_us(h.Q(h.Q(3) ? 60 : 700) * MS); h.alive(); Scr *s = sc[h.Q(sc.size())];
                switch(h.Q(8)) { case 0: case 1: case 2: if(s->tr.have) h.fire(s->tr); break; case 3: h.in(); break; case 4: if(s->en.have) h.fire(s->en); break; case 5: if(s->dis.have && h.Q(2)) h.fire(s->dis); break; case 6: h.tagenable(s, h.Q(3)); break;
                    case 7: if(!late && h.Q(2)) { late = true; for(size_t i = 0; i < tags.size(); i++) if(tags[i].late) { h.add(i); for(auto s : sc) for(Trig *t : {&s->tr, &s->en, &s->dis}) if(t->have && t->tag == (int)i) evtag[tags[i].idx] = t; sleep_us(h.Q(100) * MS); count("tags made after the start"); } } break; } }
            // the faults stop
            if(!late) for(size_t i = 0; i < tags.size(); i++) if(tags[i].late) { h.add(i); for(auto s : sc) for(Trig *t : {&s->tr, &s->en, &s->dis}) if(t->have && t->tag == (int)i) evtag[tags[i].idx] = t; }
            *ready = 2; chaos = false; cfg.p_delay = 0; cfg.p_stall = 0; cfg.p_eintr = 0; trace("the faults stop"); if(lp->stall_until > now) sleep_us(lp->stall_until - now);
            if(!wait_until([] { if(!lp->alive) return true; for(auto s : sc) for(Trig *t : {&s->tr, &s->en, &s->dis}) if(t->have && !hasev(*t)) return false; return M.find("daxlua_scripts") >= 0; }, 30 * S, "events")) for(auto s : sc) for(Trig *t : {&s->tr, &s->en, &s->dis}) if(t->have && !hasev(*t)) violation("[events] the module did not ask for the event of tag %s", t->v.ref.c_str());
            h.alive(); h.settle(2 * h.longest() + 3 * S); h.idle();
            for(auto s : sc) for(Trig *t : {&s->tr, &s->en, &s->dis}) if(t->have) { int i = tidx(t->tag), ne = 0; for(auto &e : M.db[i].events) if(e.w == lw) { ne++; if((int)e.etype != t->type || e.dt != t->v.type || e.byte != t->v.bit / 8 || e.bit != (t->v.type == DAX_BOOL ? t->v.bit % 8 : 0) || e.count != t->v.count) violation("[events] the event of tag %s is of type %u, count %u, byte %u", t->v.ref.c_str(), e.etype, e.count, e.byte); Bytes k(8), d(8); if(t->type >= EVENT_EQUAL && (enc1(t->v.type, vn(t->value), &d[0], &k[0]) != GOOD || e.data.size() < t->v.size() || memcmp(&d[0], &e.data[0], t->v.size()))) violation("[events] the event of tag %s compares with %s", t->v.ref.c_str(), hex(e.data).c_str()); } if(ne != 1) violation("[events] the module asked %d times for the event of tag %s", ne, t->v.ref.c_str()); }
            for(auto s : sc) if(s->tr.have && s->th < 0 && s->autorun && s->enable && !s->runs && s->on) { bool chance = true; (void)chance; }
            // what is pending takes effect; then everything is enabled
            for(auto s : sc) if(s->tr.have && s->th < 0) { h.fire(s->tr); h.settle(50 * MS); } h.idle(); h.settle(h.longest() * 2);
            for(auto s : sc) { h.tagenable(s, false); h.settle(30 * MS); } h.settle(h.longest() + 300 * MS); for(auto s : sc) { h.tagenable(s, true); h.settle(30 * MS); s->on = true; } h.settle(h.longest() * 2 + 500 * MS);
            for(auto &t : thr) { t.cyc = -1; t.last = -1; } calm = true; h.check_tags(true);
            h.all_events(); h.window(); h.check_tags(true);
            int rounds = 0; while(rounds++ < 14 && more(c->stream, 0.1)) {
                Scr *s = sc[h.Q(sc.size())]; std::vector<Scr *> tr; for(auto x : sc) if(x->tr.have && x->th < 0) tr.push_back(x);
                int w = h.Q(9); bool all = h.Q(3) == 0;
                auto run_it = [&](Scr *x) { if(x->th < 0) { if(x->tr.have) h.events({x}); } else h.settle(thr[x->th].interval * MS * 2 + 500 * MS); };
                auto loose = [&](Scr *x, bool on, std::function<void()> f) { bool was = x->on; calm = false; f(); h.settle(h.longest() + 400 * MS); if(x->th < 0 && x->tr.have) { h.fire(x->tr); h.settle(400 * MS); h.idle(); } x->on = on; (void)was; for(auto &t : thr) { t.cyc = -1; t.last = -1; } calm = true; };
                if(w < 3 && tr.size()) { int n = 1 + h.Q(std::min(4, qsize)); std::vector<Scr *> l; for(int i = 0; i < n; i++) { Scr *x = tr[h.Q(tr.size())]; if(std::count(l.begin(), l.end(), x) && x->tr.type != EVENT_WRITE && x->tr.type != EVENT_CHANGE) continue; l.push_back(x); } uint64_t frames = 0; (void)frames; if((int)l.size() <= qsize / 2 || l.size() == 1) h.events(l); else h.events({l[0]}); }
                else if(w == 3) { bool on = h.Q(2); loose(s, on, [&] { h.tagenable(s, on); }); }
                else if(w == 4 && s->en.have) { loose(s, true, [&] { h.fire(s->en); }); }
                else if(w == 5 && s->dis.have) { loose(s, false, [&] { h.fire(s->dis); }); }
                else if(w == 6 && s->on && !s->failed && !stopped && (s->th >= 0 || s->tr.have)) { Op o; o.op = "ds"; loose(s, false, [&] { s->plan.push_back(o); run_it(s); }); count("disable_self"); if(s->plan.size()) violation("[missed] script %s did not run", s->name.c_str()); }
                else if(w == 7 && s->on && !s->failed && !stopped && (s->th >= 0 || s->tr.have) && sc.size() > 1) { Scr *o = sc[h.Q(sc.size())]; if(o == s) o = sc[(s->k + 1) % sc.size()]; bool on = h.Q(2); Op p; p.op = on ? "en" : "dis"; p.a = h.Q(2) ? vs(o->name) : vi(o->k); loose(o, on, [&] { s->plan.push_back(p); run_it(s); }); count("switched by a script"); if(s->plan.size()) violation("[missed] script %s did not run", s->name.c_str()); }
                else if(w == 8 && s->on && !s->failed && !stopped && (s->th >= 0 || s->tr.have)) { Op o; o.op = "err"; o.a = vs("planned"); calm = false; s->plan.push_back(o); run_it(s); for(auto &t : thr) { t.cyc = -1; t.last = -1; } calm = true; if(s->plan.size()) violation("[missed] script %s did not run", s->name.c_str()); count("planned errors"); }
                if(h.Q(10) == 9) { bool st = !stopped; calm = false; h.module(st ? 0 : 1); h.settle(h.longest() + 500 * MS); h.idle(); stopped = st; for(auto &t : thr) { t.cyc = -1; t.last = -1; } calm = true; count(st ? "stop" : "run"); }
                h.in(); if(all) { h.all_events(); h.window(); } else if(h.Q(2) && s->tr.have && s->th < 0) h.events({s}); else if(h.Q(2)) h.window(); h.check_tags(!stopped); }
            for(auto s : sc) for(auto &p : s->pend) if(p.must && !s->running && s->th < 0) violation("[unwritten] script %s: %s was not written", s->name.c_str(), p.what.c_str());
            // the end
            int w = h.Q(5); calm = false; ending = true; if(w == 4) h.module(3); else { static const int sg[] = {SIGTERM, SIGINT, SIGQUIT, SIGTERM}; fired(F_SIGNAL); deliver_signal(lp, sg[w]); }
            if(!wait_until([] { return !lp->alive; }, 15 * S, "exit")) violation("[no-exit] the Lua module does not end"); if(lp->crashed) violation("[exit] the Lua module ended: %s", lp->death.c_str());
            uint64_t hsh = ns * 7 + nt; for(auto s : sc) hsh = hsh * 31 + std::min<uint64_t>(s->runs, 3) + s->failed * 4 + s->on * 8; state(hsh); simi::finish(0);
        });
        (void)hc; if(!wait_until([ready] { return *ready; }, 60 * S, "setup")) harness_error("setup");
        trace("configuration:\n%s", conf->c_str()); started = now;
        lp = start_program("daxlua", daxlua_main, {"-C", memfile(*conf), "-U", SRV_SOCK});
        wait_until([] { return !lp->alive || wire_of_proc(lp); }, 30 * S, "module connection"); lp->nopreempt = false; lw = wire_of_proc(lp);
        for(;;) {
            sleep_us(choose(ST_FAULT, 1500) * MS + 1); if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str()); if(*ready == 2) continue; if(!lp->alive) violation("[exit] the Lua module ended: %s", lp->death.c_str());
            int w = choose(ST_FAULT, 6); if(w == 1) clock_jump((choose(ST_FAULT, 2) ? 1 : -1) * (choose(ST_FAULT, 2) ? (int64_t)choose(ST_FAULT, 5000) * MS : (int64_t)choose(ST_FAULT, 40000) * S)); else if(w == 2) { static const int sg[] = {SIGHUP, SIGCHLD, SIGPIPE}; (void)sg; fired(F_SIGNAL); deliver_signal(lp, SIGCHLD); } else if(w == 3) { fired(F_STALL); lp->stall_until = now + choose(ST_FAULT, 300) * MS; }
        }
    })->main);
    run_loop();
}
}
SCENARIO("C21", "the Lua module", 1, c21, REALC, STUBC)
