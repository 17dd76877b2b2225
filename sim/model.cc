#include "model.h"
#include <algorithm>
#include <cmath>
#include <strings.h>
Model M;
enum { RO = TAG_ATTR_READONLY, RET = TAG_ATTR_RETAIN, OWN = TAG_ATTR_OWNED };
static const int I_COUNT = 0, I_LAST = 1, I_ADDED = 2, I_DELETED = 3, I_DBSIZE = 4, I_STARTED = 5, I_LASTMOD = 6, I_OVRI = 7, I_OVRS = 8, I_TIME = 9, I_MYNAME = 10;
static uint32_t u32(const Bytes &b, size_t o) { uint32_t x = 0; if(o + 4 <= b.size()) memcpy(&x, b.data() + o, 4); return x; }
tag_handle H(int idx, uint32_t byte, uint8_t bit, uint32_t count, uint32_t size, uint32_t type) { tag_handle h; memset(&h, 0, sizeof h); h.index = idx; h.byte = byte; h.bit = bit; h.count = count; h.size = size; h.type = type; return h; }
uint32_t boolbytes(uint8_t bit, uint32_t count) { return (bit + count - 1) / 8 + 1; }
void getbits(const uint8_t *src, uint32_t bit, uint32_t n, uint8_t *dst, uint32_t dbit) { for(uint32_t i = 0; i < n; i++) { bool v = src[(bit + i) / 8] >> ((bit + i) % 8) & 1; uint8_t &d = dst[(dbit + i) / 8]; uint8_t m = 1 << ((dbit + i) % 8); d = v ? d | m : d & ~m; } }

static const struct { const char *n; uint32_t t; } base[] = {{"BOOL", DAX_BOOL}, {"BYTE", DAX_BYTE}, {"SINT", DAX_SINT}, {"CHAR", DAX_CHAR}, {"WORD", DAX_WORD}, {"INT", DAX_INT}, {"UINT", DAX_UINT}, {"DWORD", DAX_DWORD}, {"DINT", DAX_DINT}, {"UDINT", DAX_UDINT}, {"REAL", DAX_REAL}, {"LWORD", DAX_LWORD}, {"LINT", DAX_LINT}, {"ULINT", DAX_ULINT}, {"TIME", DAX_TIME}, {"LREAL", DAX_LREAL}};
uint32_t Model::typebyname(const std::string &s) { for(auto &b : base) if(!strcasecmp(s.c_str(), b.n)) return b.t; for(auto &t : types) if(!strcasecmp(t.name.c_str(), s.c_str())) return t.id; return 0; }
std::string Model::typestr(uint32_t t) { for(auto &b : base) if(b.t == t) return b.n; for(auto &m : types) if(m.id == t) return m.name; return "?"; }
static MType *mtype(uint32_t id) { for(auto &m : M.types) if(m.id == (id & ~DAX_QUEUE)) return &m; return nullptr; }
bool Model::typeok(uint32_t t) { t &= ~DAX_QUEUE; for(auto &b : base) if(b.t == t) return true; return (t & DAX_CUSTOM) && mtype(t); }
int Model::typesize(uint32_t t) { t &= ~DAX_QUEUE; if(t & DAX_CUSTOM) { MType *m = mtype(t); return m ? m->size : -1; } return (1 << (t & 0xF)) / 8; }
uint32_t Model::tagbytes(uint32_t t, uint32_t count) { return t == DAX_BOOL ? count / 8 + 1 : typesize(t) * count; }
std::string MType::text() const { std::string s = name; for(auto &x : m) s += ":" + x.name + "," + M.typestr(x.type) + "," + std::to_string(x.count); return s; }
void layout(MType &t) {
    uint64_t pos = 0;
    for(auto &m : t.m) { if(m.type != DAX_BOOL && pos % 8) pos = (pos | 7) + 1; m.byte = pos / 8; m.bit = pos % 8; pos += m.type == DAX_BOOL ? m.count : (uint64_t)M.typesize(m.type) * m.count * 8; }
    t.size = pos ? (pos - 1) / 8 + 1 : 0;
}
int Model::find(const std::string &n) { for(size_t i = 0; i < db.size(); i++) if(db[i].exists && !db[i].wildname && db[i].name == n) return i; return -1; }
int Model::tagcount() { int n = 0; for(auto &t : db) n += t.exists; return n; }
static bool validname(const std::string &n) { if(n.empty() || n.size() > DAX_TAGNAME_SIZE) return false; if(!isalpha((unsigned char)n[0]) && n[0] != '_') return false; for(char c : n) if(!isalnum((unsigned char)c) && c != '_') return false; return true; }
uint64_t Model::digest() { uint64_t h = 1469598103934665603ULL; auto f = [&](uint64_t x) { h = (h ^ x) * 1099511628211ULL; };
    for(auto &t : db) { f(t.exists); f(t.type); f(t.count); f(t.attr); for(size_t i = 0; i < t.data.size(); i++) f(t.wild[i] ? 0 : t.data[i]); f(t.ovr * 2 + t.ovrset); for(auto x : t.omask) f(x); f(t.q.size()); f(t.events.size()); f(t.maps.size()); } std::map<int, MModule *> ord; for(auto &m : mods) ord[m.first ? m.first->serial : -1] = &m.second; for(auto &m : ord) { f(m.second->reg); f(m.second->groups.size()); } return h; }
void Model::reset() {
    db.clear(); types.clear(); mods.clear(); exp.clear(); got.clear();
    auto ty = [&](const char *n, std::vector<MMember> m) { MType t; t.name = n; t.m = m; t.id = DAX_CUSTOM | types.size(); layout(t); types.push_back(t); };
    ty("_module", {{"starttime", DAX_TIME, 1}, {"id", DAX_DINT, 1}, {"running", DAX_BOOL, 1}, {"faulted", DAX_BOOL, 1}, {"status", DAX_CHAR, 64}, {"stop", DAX_BOOL, 1}, {"run", DAX_BOOL, 1}, {"reload", DAX_BOOL, 1}, {"kill", DAX_BOOL, 1}});
    ty("_tag_desc", {{"index", DAX_DINT, 1}, {"type", DAX_UDINT, 1}, {"count", DAX_UDINT, 1}, {"attributes", DAX_UINT, 1}, {"name", DAX_CHAR, DAX_TAGNAME_SIZE + 1}});
    auto st = [&](const char *n, uint32_t type, uint32_t c, bool v = false) { int i = addtag(n, type, c, 0, nullptr); db[i].attr |= RO; db[i].virt = v; return i; };
    st("_tagcount", DAX_DINT, 1); st("_lastindex", DAX_DINT, 1); st("_tag_added", DAX_CUSTOM | 1, 1); st("_tag_deleted", DAX_CUSTOM | 1, 1); st("_dbsize", DAX_DINT, 1); st("_starttime", DAX_TIME, 1);
    st("_lastmodule", DAX_CHAR, DAX_TAGNAME_SIZE + 1); st("_overrides_installed", DAX_DINT, 1); st("_overrides_set", DAX_DINT, 1); st("_time", DAX_TIME, 1, true); st("_my_tagname", DAX_CHAR, DAX_TAGNAME_SIZE + 1, true);
    std::fill(db[I_STARTED].wild.begin(), db[I_STARTED].wild.end(), 1); std::fill(db[I_DBSIZE].wild.begin(), db[I_DBSIZE].wild.end(), 1);
    db[I_ADDED].wild[12] = db[I_ADDED].wild[13] = db[I_DELETED].wild[12] = db[I_DELETED].wild[13] = 1;
    int32_t z = 0; sysw(I_OVRI, &z, 4); sysw(I_OVRS, &z, 4);
}
void Model::sysw(int idx, const void *d, uint32_t n) { if(idx >= (int)db.size() || !db[idx].exists) return; wr(nullptr, idx, 0, (const uint8_t *)d, nullptr, n, false); }
void Model::desc(int dest, int idx, uint32_t attr) {
    if(dest >= (int)db.size()) return;
    uint8_t b[47]; memset(b, 0, sizeof b); memcpy(b, &idx, 4); memcpy(b + 4, &db[idx].type, 4); memcpy(b + 8, &db[idx].count, 4); strncpy((char *)b + 14, db[idx].name.c_str(), 32);
    for(int i = 14; i < 47; i++) db[dest].wild[i] = db[idx].wildname;
    sysw(dest, b, 47);
}
int Model::addtag(const std::string &name, uint32_t type, uint32_t count, uint32_t attr, Wire *w) {
    MTag t; t.exists = true; t.name = name; t.type = type; t.count = count; t.queue = type & DAX_QUEUE; t.owner = w;
    if(attr & RET) t.attr = t.type & DAX_QUEUE ? 0 : RET; else if(attr & OWN) t.attr = OWN | (attr & RO);
    uint32_t n = tagbytes(type, count); if(!t.queue) { t.data.assign(n, 0); t.wild.assign(n, 0); }
    db.push_back(t); int i = db.size() - 1;
    int32_t v = i; sysw(I_LAST, &v, 4); v = tagcount(); sysw(I_COUNT, &v, 4); desc(I_ADDED, i, attr);
    return i;
}
void Model::deltag(int idx) {
    evdel(idx); db[idx].events.clear(); db[idx].maps.clear(); desc(I_DELETED, idx, 0);
    MTag &t = db[idx]; bool s = t.ovrset, o = t.ovr; t.exists = false; t.ovr = t.ovrset = false; t.q.clear();
    if(s || o) { int32_t a = 0, b = 0; for(auto &x : db) if(x.exists) { a += x.ovr; b += x.ovrset; } if(s) sysw(I_OVRS, &b, 4); if(o) sysw(I_OVRI, &a, 4); }
    int32_t v = tagcount(); sysw(I_COUNT, &v, 4);
}
void Model::fire(int idx, MEvent &e) {
    Ev x; x.type = e.etype; x.idx = idx; x.id = e.id;
    if(e.opts & EVENT_OPT_SEND_DATA) { MTag &t = db[idx]; if(t.queue) x.data = t.q.back(); else x.data.assign(t.data.begin() + e.byte, t.data.begin() + e.byte + e.size); }
    exp[e.w].push_back(x); count("event expected");
}
template<class T> static T ld(const uint8_t *p) { T x; memcpy(&x, p, sizeof x); return x; }
static int cmpel(uint32_t type, const uint8_t *a, const uint8_t *b, bool *un = nullptr) {
#define CT(T) { T x = ld<T>(a), y = ld<T>(b); if(un) *un = !(x < y) && !(x > y) && !(x == y); return x < y ? -1 : x > y ? 1 : 0; }
    switch(type) { case DAX_BYTE: CT(uint8_t) case DAX_SINT: case DAX_CHAR: CT(int8_t) case DAX_WORD: case DAX_UINT: CT(uint16_t) case DAX_INT: CT(int16_t) case DAX_DWORD: case DAX_UDINT: CT(uint32_t) case DAX_DINT: CT(int32_t)
        case DAX_LWORD: case DAX_ULINT: case DAX_TIME: CT(uint64_t) case DAX_LINT: CT(int64_t) case DAX_REAL: CT(float) case DAX_LREAL: CT(double) }
    return 0;
}
static bool beyond(uint32_t type, const uint8_t *a, const uint8_t *b, const uint8_t *d) { // |a - b| >= d
#define SI(T) { __int128 x = ld<T>(a), y = ld<T>(b), z = ld<T>(d); return (x > y ? x - y : y - x) >= z; }
#define FL(T) { T z = ld<T>(a) - ld<T>(b); if(z < 0) z = -z; return z >= ld<T>(d); }
    switch(type) { case DAX_BYTE: SI(uint8_t) case DAX_SINT: case DAX_CHAR: SI(int8_t) case DAX_WORD: case DAX_UINT: SI(uint16_t) case DAX_INT: SI(int16_t) case DAX_DWORD: case DAX_UDINT: SI(uint32_t) case DAX_DINT: SI(int32_t)
        case DAX_LWORD: case DAX_ULINT: case DAX_TIME: SI(uint64_t) case DAX_LINT: SI(int64_t) case DAX_REAL: FL(float) case DAX_LREAL: FL(double) }
    return false;
}
void Model::ev(int idx, uint32_t off, uint32_t size) {
    MTag &t = db[idx];
    for(auto &e : t.events) {
        if(!(off < e.byte + e.size && off + size > e.byte)) continue;
        bool hit = false; const uint8_t *d = t.queue ? nullptr : t.data.data() + e.byte; int inc = typesize(e.dt);
        switch(e.etype) {
        case EVENT_WRITE: hit = true; break;
        case EVENT_CHANGE:
            if(e.dt == DAX_BOOL) { for(uint32_t i = 0; i < e.count; i++) { uint32_t p = e.bit + i; if(((d[p / 8] ^ e.last[p / 8]) >> (p % 8)) & 1) hit = true; } }
            else hit = memcmp(d, e.last.data(), e.size) != 0;
            e.last.assign(d, d + e.size); break;
        case EVENT_SET: case EVENT_RESET:
            for(uint32_t i = 0; i < e.count; i++) { uint32_t p = e.bit + i; bool v = (d[p / 8] >> (p % 8)) & 1; if(e.etype == EVENT_RESET) v = !v; if(v && !e.flag[i]) hit = true; e.flag[i] = v; } break;
        case EVENT_EQUAL: case EVENT_GREATER: case EVENT_LESS:
            for(uint32_t i = 0; i < e.count; i++) { // only elements touched by the operation
                if(!(off < e.byte + (i + 1) * inc && off + size > e.byte + i * inc)) continue;
                bool un = false; int c = cmpel(e.dt, d + i * inc, e.data.data(), &un); bool v = !un && (e.etype == EVENT_EQUAL ? c == 0 : e.etype == EVENT_GREATER ? c > 0 : c < 0);
                if(v && !e.flag[i]) hit = true; e.flag[i] = v; } break;
        case EVENT_DEADBAND:
            for(uint32_t i = 0; i < e.count; i++) {
                if(!(off < e.byte + (i + 1) * inc && off + size > e.byte + i * inc)) continue;
                if(beyond(e.dt, d + i * inc, e.last.data() + i * inc, e.data.data())) { hit = true; memcpy(e.last.data() + i * inc, d + i * inc, inc); } } break;
        }
        if(hit) fire(idx, e); else count("event not expected");
    }
}
void Model::evdel(int idx) { for(auto &e : db[idx].events) if(e.etype == EVENT_DELETED) fire(idx, e); }
void Model::wr(Wire *by, int idx, uint32_t off, const uint8_t *d, const uint8_t *mask, uint32_t size, bool maps) {
    MTag &t = db[idx];
    if(t.queue) { t.q.push_back(Bytes(d, d + size)); ev(idx, 0, size); return; }
    for(uint32_t i = 0; i < size; i++) { uint8_t m = mask ? mask[i] : 0xff; t.data[off + i] = (t.data[off + i] & ~m) | (d[i] & m); }
    ev(idx, off, size);
    if(maps) domaps(idx, off, size);
}
void Model::domaps(int idx, uint32_t off, uint32_t size) {
    for(auto m : db[idx].maps) {
        if(!(off < m.src.byte + m.src.size && off + size > m.src.byte)) continue;
        MTag &d = db[m.dst.index]; if(!d.exists) continue;
        if(d.special) continue;
        count("map copy");
        Bytes s(db[idx].data.begin() + m.src.byte, db[idx].data.begin() + m.src.byte + m.src.size);
        if(m.src.type == DAX_BOOL || m.dst.type == DAX_BOOL) {
            uint32_t bits = m.src.type == DAX_BOOL ? m.src.count : m.src.size * 8, sb = m.src.type == DAX_BOOL ? m.src.bit : 0, dbit = m.dst.type == DAX_BOOL ? m.dst.bit : 0;
            uint32_t n = (dbit + bits - 1) / 8 + 1; Bytes v(n, 0), k(n, 0), ones(bits / 8 + 1, 0xff);
            getbits(s.data(), sb, bits, v.data(), dbit); getbits(ones.data(), 0, bits, k.data(), dbit);
            wr(nullptr, m.dst.index, m.dst.byte, v.data(), k.data(), n, false);
        } else wr(nullptr, m.dst.index, m.dst.byte, s.data(), nullptr, m.src.size, false);
    }
}
int Model::may_write(Wire *w, int idx, uint32_t off, uint32_t size, bool masked) { // 0 = yes
    if(idx < 0 || idx >= (int)db.size() || !db[idx].exists) return 1;
    MTag &t = db[idx];
    if((t.attr & RO) && !((t.attr & OWN) && t.owner == w)) return 2;
    if(t.virt) return 1;
    if(t.queue) return masked || off != 0 || size != tagbytes(t.type, t.count);
    if((uint64_t)off + size > t.data.size() || (int32_t)off < 0) return 1;
    if(t.special && !(off == 77 && size == 1)) { MModule &m = mods[w]; if(!m.reg || m.tagidx != idx || off < 12) return 2; }
    return 0;
}
Bytes Model::view(int idx, uint32_t off, uint32_t size) {
    MTag &t = db[idx]; Bytes r(t.data.begin() + off, t.data.begin() + off + size);
    if(t.ovrset) for(uint32_t i = 0; i < size; i++) r[i] = (r[i] & ~t.omask[off + i]) | (t.odata[off + i] & t.omask[off + i]);
    return r;
}
bool cmpwild(const Bytes &got, const Bytes &exp, const MTag &t, uint32_t off) { if(got.size() != exp.size()) return false; for(size_t i = 0; i < got.size(); i++) if(got[i] != exp[i] && !(off + i < t.wild.size() && t.wild[off + i])) return false; return true; }
void Model::unreg(Wire *w) {
    MModule &m = mods[w]; if(!m.reg) return;
    for(auto &t : db) { auto &v = t.events; v.erase(std::remove_if(v.begin(), v.end(), [w](MEvent &e) { return e.w == w; }), v.end()); }
    m.groups.clear(); m.reg = false;
    int n = db.size(); for(int i = 0; i < n; i++) if(db[i].exists && (db[i].attr & OWN) && db[i].owner == w) deltag(i);
    if(m.tagidx >= 0 && db[m.tagidx].exists) deltag(m.tagidx);
    m.tagidx = -1;
}
void Model::gone(Wire *w) { bool was = mods[w].reg; unreg(w); mods.erase(w); trace("model: connection %d gone%s", w->serial, was ? "" : " (not registered)"); settle("the end of a connection"); }
static bool evless(const Ev &a, const Ev &b) { return std::tie(a.idx, a.id, a.type, a.data) < std::tie(b.idx, b.id, b.type, b.data); }
void Model::settle(const char *what) {
    if(dry) { exp.clear(); got.clear(); return; }
    std::set<Wire *> ws; for(auto &x : exp) ws.insert(x.first); for(auto &x : got) ws.insert(x.first);
    std::map<int, Wire *> ord; for(auto w : ws) ord[w->serial] = w;
    if(check_events) for(auto &ow : ord) {
        Wire *w = ow.second; auto e = exp[w], g = got[w];
        for(auto *l : {&e, &g}) for(auto &x : *l) if(x.idx >= 0 && x.idx < (int)db.size() && x.data.size()) { // mask what the model does not know
            MTag &t = db[x.idx]; uint32_t off = 0; for(auto &ev : t.events) if(ev.id == x.id) off = ev.byte; for(size_t i = 0; i < x.data.size(); i++) if(off + i < t.wild.size() && t.wild[off + i]) x.data[i] = 0; }
        std::sort(e.begin(), e.end(), evless); std::sort(g.begin(), g.end(), evless);
        size_t i = 0, j = 0;
        while(i < e.size() || j < g.size()) {
            if(i < e.size() && j < g.size() && !evless(e[i], g[j]) && !evless(g[j], e[i])) { i++; j++; continue; }
            bool miss = j >= g.size() || (i < e.size() && evless(e[i], g[j]));
            if(i < e.size() && j < g.size() && e[i].idx == g[j].idx && e[i].id == g[j].id && e[i].type == g[j].type)
                violation("[event-data] %s: event id %d (type %d) of tag %d carries data %s, expected %s", what, e[i].id, e[i].type, e[i].idx, hex(g[j].data).c_str(), hex(e[i].data).c_str());
            if(miss) violation("[event-missed] %s: the condition of event id %d (type %u) on tag %d (%s) was met but connection %d was not notified", what, e[i].id, e[i].type, e[i].idx, db[e[i].idx].name.c_str(), w->serial);
            violation("[event-spurious] %s: connection %d was notified of event id %d (type %u) on tag %d although its condition was not met or it is not its event", what, w->serial, g[j].id, g[j].type, g[j].idx);
        }
        if(e.size()) count("event delivered", e.size());
    }
    exp.clear(); got.clear();
}
void Model::check_read(Wire *w, int idx, uint32_t off, uint32_t size, const Bytes &d, const char *what) {
    MTag &t = db[idx]; Bytes x = view(idx, off, size);
    if(!cmpwild(d, x, t, off)) violation("[%s] tag %s (index %d) offset %u size %u: the server returned %s, expected %s", what, t.name.c_str(), idx, off, size, hex(d).c_str(), hex(x).c_str());
    if(idx == I_DBSIZE && off == 0 && size == 4 && (int)u32(d, 0) < (int)db.size()) violation("[dbsize] _dbsize is %u but there are %zu tag slots in use", u32(d, 0), db.size());
}
bool atomic_exact(uint8_t *d, uint32_t type, uint8_t bit, uint32_t count, uint32_t size, const uint8_t *data, int op) {
    if(op < ATOMIC_OP_INC || op > ATOMIC_OP_XNOR) return false;
    if(op == ATOMIC_OP_INC || op == ATOMIC_OP_DEC) {
        if(type == DAX_BOOL || count != 1) return false;
        if(type == DAX_REAL) { float a = ld<float>(d), b = ld<float>(data); volatile float r = op == ATOMIC_OP_INC ? a + b : a - b; float q = r; memcpy(d, &q, 4); return true; }
        if(type == DAX_LREAL) { double a = ld<double>(d), b = ld<double>(data); double r = op == ATOMIC_OP_INC ? a + b : a - b; memcpy(d, &r, 8); return true; }
        uint64_t a = 0, b = 0; memcpy(&a, d, size); memcpy(&b, data, size); a = op == ATOMIC_OP_INC ? a + b : a - b; memcpy(d, &a, size); return true;
    }
    uint32_t bits = type == DAX_BOOL ? count : size * 8, p0 = type == DAX_BOOL ? bit : 0;
    for(uint32_t i = 0; i < bits; i++) {
        uint32_t p = p0 + i; bool a = d[p / 8] >> (p % 8) & 1, b = op == ATOMIC_OP_NOT ? 0 : data[i / 8] >> (i % 8) & 1, r = false;
        switch(op) { case ATOMIC_OP_NOT: r = !a; break; case ATOMIC_OP_OR: r = a | b; break; case ATOMIC_OP_AND: r = a & b; break; case ATOMIC_OP_NOR: r = !(a | b); break; case ATOMIC_OP_NAND: r = !(a & b); break; case ATOMIC_OP_XOR: r = a != b; break; case ATOMIC_OP_XNOR: r = a == b; break; }
        d[p / 8] = r ? d[p / 8] | (1 << (p % 8)) : d[p / 8] & ~(1 << (p % 8));
    }
    return true;
}
static const char *cmdname(uint32_t c) { static const char *n[] = {"?", "register", "add tag", "delete tag", "get tag", "list", "read", "write", "masked write", "add event", "delete event", "get event", "event options", "create type", "get type", "add map", "delete map", "get map", "add group", "delete group", "group read", "group write", "group masked write", "atomic operation", "add override", "delete override", "get override", "set override"}; return c < 28 ? n[c] : "?"; }

void Model::apply(Wire *w, const Frame &rq, const Frame &rsp) {
    const Bytes &d = rq.d; const Bytes &r = rsp.d; bool err = rsp.cmd & RERR; uint32_t cmd = rq.cmd;
    applied++;
    const int UNKNOWN = -99; int rc = err && r.size() >= 4 ? (int)u32(r, 0) : 0;
    if(err && (r.size() != 4 || rc >= 0)) violation("[bad-error] the error answer to %s carries %zu bytes (%d)", cmdname(cmd), r.size(), rc);
    // want: 0 success, 1 an error, 2 the error "read only"/"not permitted"
    auto expect = [&](int want, const char *why) -> bool {
        if(dry) return want == 0;
        if(want == UNKNOWN) return !err;
        if(want && !err) violation("[accepted] %s from connection %d was accepted although %s (request %s)", cmdname(cmd), w->serial, why, hex(d).c_str());
        if(!want && err) { if(allow_errors) return false; violation("[refused] %s from connection %d was refused with %d although it is valid (request %s)", cmdname(cmd), w->serial, rc, hex(d).c_str()); }
        return !want;
    };
    static const uint32_t minsize[28] = {0, 0, 13, 4, 2, 0, 12, 8, 8, 25, 8, 0, 12, 1, 2, 42, 8, 8, 2, 4, 4, 4, 0, 21, 12, 8, 12, 5};
    int idx = (int)u32(d, 0); bool ok = idx >= 0 && idx < (int)db.size() && db[idx].exists;
    prev.clear(); prev_omask.clear(); if(ok) { prev = db[idx].data; prev_omask = db[idx].omask; }
    auto tail = [&](size_t o) { return d.size() > o ? Bytes(d.begin() + o, d.end()) : Bytes(); };
    auto str = [&](const Bytes &b) { return std::string(b.begin(), std::find(b.begin(), b.end(), 0)); };
    if(cmd < 1 || cmd > 27) harness_error("model: command %u", cmd);
    bool shortrq = d.size() < minsize[cmd] && !(cmd == C_REG && d.empty());
    if(shortrq) { expect(1, "it is too short"); settle(cmdname(cmd)); return; }
    switch(cmd) {
    case C_REG: {
        if(d.empty()) { break; }
        if(d.size() < 8) break; // undefined
        uint32_t fl = __builtin_bswap32(u32(d, 4)); if(!(fl & 1)) { expect(1, "it is not a synchronous registration"); break; }
        if(!expect(0, "")) break;
        unreg(w);
        MModule &m = mods[w]; m.reg = true; m.name = str(tail(8)); w->registered = true; w->modname = m.name;
        std::string tn = ("_m" + m.name).substr(0, DAX_TAGNAME_SIZE); bool dup = find(tn) >= 0; if(!dup) for(auto &t : db) if(t.exists && t.wildname && t.name.compare(0, std::min(t.name.size(), tn.size()), tn.substr(0, t.name.size())) == 0) dup = true;
        if(!validname(tn)) { m.tagidx = -1; break; } // no module tag
        MTag pre; int i; {
            // the name is only known exactly when there is no other module tag like it
            db.push_back(MTag()); i = db.size() - 1; db.pop_back();
            bool wn = dup; std::string nm = tn;
            MTag t; t.exists = true; t.name = wn ? tn.substr(0, std::min<size_t>(tn.size(), DAX_TAGNAME_SIZE - 5)) : nm; t.wildname = wn; t.type = types[0].id; t.count = 1; t.special = true; t.data.assign(types[0].size, 0); t.wild.assign(types[0].size, 0); for(int k = 0; k < 12; k++) t.wild[k] = 1;
            db.push_back(t); int32_t v = i; sysw(I_LAST, &v, 4); v = tagcount(); sysw(I_COUNT, &v, 4); desc(I_ADDED, i, 0);
            uint8_t nb[32] = {0}; strncpy((char *)nb, nm.c_str(), 32); for(int k = 0; k < 33; k++) db[I_LASTMOD].wild[k] = wn; sysw(I_LASTMOD, nb, 32);
        }
        m.tagidx = i; (void)pre;
        break; }
    case C_ADD: {
        uint32_t type = u32(d, 0), cnt = u32(d, 4), attr = u32(d, 8); std::string name = str(tail(12));
        if(name.empty()) { expect(1, "the name is empty"); break; }
        if(name[0] == '_') { expect(1, "names starting with '_' are reserved"); break; }
        if(!validname(name)) { expect(1, "the name is invalid"); break; }
        if(cnt == 0) { expect(1, "the count is zero"); break; }
        if(!typeok(type)) { expect(1, "the type does not exist"); break; }
        if((uint64_t)std::max(1, typesize(type)) * cnt > 0x7fffffffull) { expect(1, "it is too big"); break; }
        int e = find(name);
        if(e >= 0) {
            MTag &t = db[e];
            if((t.attr & OWN) && t.owner != w) { expect(1, "the tag is owned by another module"); break; }
            if(t.type != type) { expect(1, "the tag exists with another type"); break; }
            if(cnt > t.count && t.queue) { expect(1, "queues do not grow"); break; }
            if(!expect(0, "")) break;
            if((int)u32(r, 0) != e) violation("[index] adding existing tag %s returned index %d, it is %d", name.c_str(), (int)u32(r, 0), e);
            if(attr & OWN) t.owner = w;
            if(cnt > t.count) { t.count = cnt; uint32_t n = tagbytes(type, cnt); t.data.resize(n, 0); t.wild.resize(n, 0); if(t.ovr) { t.odata.resize(n, 0); t.omask.resize(n, 0); }
                if(attr & RET) t.attr |= t.type & DAX_QUEUE ? 0 : RET; else if(attr & OWN) t.attr |= OWN | (attr & RO); desc(I_ADDED, e, attr); }
            else { if(attr & RET) t.attr |= t.type & DAX_QUEUE ? 0 : RET; else if(attr & OWN) t.attr |= OWN | (attr & RO); }
            break;
        }
        if(!expect(0, "")) break;
        int i = (int)u32(r, 0); if(r.size() != 4 || i < 0) violation("[index] adding tag %s returned %d", name.c_str(), i);
        if(i < (int)db.size()) violation("[index-reused] new tag %s got index %d which was already given to %s", name.c_str(), i, db[i].name.c_str());
        if(i > (int)db.size() + 4096) violation("[index] new tag %s got index %d", name.c_str(), i);
        while((int)db.size() < i) db.push_back(MTag());
        addtag(name, type, cnt, attr, w);
        break; }
    case C_DEL:
        if(!ok) { expect(1, "there is no such tag"); break; }
        if(db[idx].name[0] == '_') { expect(1, "it is a system tag"); break; }
        if(expect(0, "")) deltag(idx);
        break;
    case C_GET: {
        int i; std::string nm;
        if(d[0] == 2) { i = (int)u32(d, 1); if(i < 0 || i >= (int)db.size() || !db[i].exists) i = -1; }
        else if(d[0] == 1) { nm = str(tail(1)); if(nm.size() > DAX_TAGNAME_SIZE) break; i = find(nm); if(i < 0) for(auto &t : db) if(t.exists && t.wildname && nm.compare(0, t.name.size(), t.name) == 0) i = -2; }
        else break;
        if(i == -2) { // may be the tag of a duplicate module
            if(err) break;
            int k = (int)u32(r, 0); if(k < 0 || k >= (int)db.size() || !db[k].exists || !db[k].wildname) violation("[lookup] looking up %s found index %d", nm.c_str(), k);
            break; }
        if(!expect(i < 0 ? 1 : 0, "there is no such tag")) break;
        MTag &t = db[i];
        if(r.size() < 15) violation("[lookup] the answer for tag %s is too short", t.name.c_str());
        uint16_t at; memcpy(&at, r.data() + 12, 2); std::string gn = str(Bytes(r.begin() + 14, r.end()));
        if((int)u32(r, 0) != i || u32(r, 4) != t.type || u32(r, 8) != t.count) violation("[lookup] looking up tag %s: got index %d type 0x%x count %u, expected index %d type 0x%x count %u", t.name.c_str(), (int)u32(r, 0), u32(r, 4), u32(r, 8), i, t.type, t.count);
        if(t.wildname ? gn.compare(0, t.name.size(), t.name) != 0 : gn != t.name) violation("[lookup] tag %d is called %s, expected %s", i, gn.c_str(), t.name.c_str());
        uint32_t am = RO | RET | OWN; if(ret_unsure) t.attr = (t.attr & ~RET) | (at & RET); if((at & am) != (t.attr & am)) violation("[lookup] tag %s has attributes 0x%x, expected 0x%x", t.name.c_str(), at & (RO | RET | OWN), t.attr);
        if(!!(at & TAG_ATTR_OVERRIDE) != t.ovr || !!(at & TAG_ATTR_OVR_SET) != t.ovrset) violation("[lookup] tag %s override attributes 0x%x, expected installed=%d set=%d", t.name.c_str(), at, t.ovr, t.ovrset);
        break; }
    case C_READ: {
        uint32_t off = u32(d, 4), n = u32(d, 8);
        if(!ok) { expect(1, "there is no such tag"); break; }
        MTag &t = db[idx];
        if((int32_t)n < 0 || n > 4088) { expect(1, "the size does not fit a message"); break; }
        if(t.queue) {
            if(off || n != tagbytes(t.type, t.count)) { expect(1, "queues are read as a whole"); break; }
            if(t.q.empty()) { expect(1, "the queue is empty"); if(rc != ERR_EMPTY) violation("[queue-empty] reading the empty queue %s reported %d instead of ERR_EMPTY", t.name.c_str(), rc); break; }
            if(!expect(0, "")) break;
            if(r != t.q.front()) violation("[queue-data] reading queue %s returned %s, the oldest element is %s", t.name.c_str(), hex(r).c_str(), hex(t.q.front()).c_str());
            t.q.pop_front(); count("queue element read"); break; }
        if((int32_t)off < 0 || (uint64_t)off + n > t.data.size()) { expect(1, "the range is outside the tag"); break; }
        if(t.virt) {
            if(idx == I_MYNAME) { MModule &m = mods[w]; if(!m.reg || m.tagidx < 0) { expect(1, "the module has no tag"); break; } if(!expect(0, "")) break;
                if(!db[m.tagidx].wildname) { Bytes nm(33, 0); memcpy(nm.data(), db[m.tagidx].name.data(), std::min<size_t>(32, db[m.tagidx].name.size())); if(r != Bytes(nm.begin() + off, nm.begin() + off + n)) violation("[my-tagname] _my_tagname returned %s for module %s", hex(r).c_str(), m.name.c_str()); } break; }
            if(expect(0, "") && r.size() != n) violation("[read] size %zu returned, %u asked", r.size(), n);
            break; }
        if(!expect(0, "")) break;
        check_read(w, idx, off, n, r, "read"); count("read checked");
        break; }
    case C_WRITE: case C_MWRITE: {
        uint32_t off = u32(d, 4), n = d.size() - 8; if(cmd == C_MWRITE) n /= 2;
        if(n == 0) break;
        int bad = may_write(w, idx, off, n, cmd == C_MWRITE);
        if(!expect(bad, bad == 2 ? "the tag is read only for it" : "the target is not valid")) break;
        wr(w, idx, off, d.data() + 8, cmd == C_MWRITE ? d.data() + 8 + n : nullptr, n, true); count(db[idx].queue ? "queue element written" : "write applied");
        break; }
    case C_ATOMIC: {
        uint32_t off = u32(d, 4), cnt = u32(d, 8), ty = u32(d, 12); uint8_t bit = d[16]; uint16_t op; memcpy(&op, &d[17], 2); uint32_t n = d.size() - 21;
        if(!ok) { expect(1, "there is no such tag"); break; }
        MTag &t = db[idx];
        if((t.attr & RO) && !((t.attr & OWN) && t.owner == w)) { expect(2, "the tag is read only for it"); break; }
        bool isbase = false; for(auto &b : base) isbase |= b.t == ty;
        if(!isbase) { if(ty & (DAX_CUSTOM | DAX_QUEUE)) expect(1, "the type is not a base type"); break; }
        if(t.queue || t.virt || t.special) { expect(1, "the tag does not support it"); break; }
        uint64_t need = ty == DAX_BOOL ? ((uint64_t)bit + cnt - 1) / 8 + 1 : (uint64_t)cnt * typesize(ty);
        if(cnt == 0 || (ty == DAX_BOOL && bit > 7) || need != n) { expect(1, "the size does not match"); break; }
        if((uint64_t)off + n > t.data.size()) { expect(1, "the range is outside the tag"); break; }
        Bytes nd(t.data.begin() + off, t.data.begin() + off + n); Bytes arg = tail(21); arg.resize(n + 8, 0);
        bool can = atomic_exact(nd.data(), ty, bit, cnt, n, arg.data(), op);
        if(!expect(can ? 0 : 1, "the operation does not apply to this type or count")) break;
        wr(w, idx, off, nd.data(), nullptr, n, true); count("atomic applied");
        break; }
    case C_EADD: {
        uint32_t byte = u32(d, 4), cnt = u32(d, 8), ty = u32(d, 12), et = u32(d, 16), size = u32(d, 20); uint8_t bit = d[24];
        if(!mods[w].reg) { expect(1, "the module is not registered"); break; }
        if(!ok) { expect(1, "there is no such tag"); break; }
        MTag &t = db[idx];
        if(t.virt) { expect(1, "virtual tags have no events"); break; }
        if(t.queue && (byte || et != EVENT_WRITE || size != tagbytes(t.type, t.count))) { expect(1, "queues only have write events for all of it"); break; }
        uint64_t sz = t.queue ? tagbytes(t.type, t.count) : t.data.size();
        if((uint64_t)byte + size > sz) { expect(1, "the range is outside the tag"); break; }
        bool tb = ty == DAX_BOOL, cust = ty & (DAX_CUSTOM | DAX_QUEUE), real = ty == DAX_REAL || ty == DAX_LREAL;
        bool fine = et == EVENT_WRITE || et == EVENT_CHANGE || et == EVENT_DELETED || ((et == EVENT_SET || et == EVENT_RESET) && tb) || (et == EVENT_EQUAL && !tb && !cust && !real) || ((et == EVENT_GREATER || et == EVENT_LESS || et == EVENT_DEADBAND) && !tb && !cust);
        if(!fine) { expect(1, "the condition does not apply to the type"); break; }
        if(!typeok(ty)) { expect(1, "the type does not exist"); break; }
        uint64_t need = tb ? ((uint64_t)bit + cnt - 1) / 8 + 1 : (uint64_t)cnt * typesize(ty);
        if(cnt == 0 || (tb && bit > 7) || need != size) { expect(1, "the size does not match"); break; }
        if(!expect(0, "")) break;
        MEvent e; e.id = (int)u32(r, 0); e.w = w; e.etype = et; e.dt = ty; e.byte = byte; e.count = cnt; e.size = size; e.bit = bit; e.data = tail(25); e.data.resize(16, 0);
        for(auto &x : t.events) if(x.id == e.id) violation("[event-id] the id %d of a new event of tag %s is already in use", e.id, t.name.c_str());
        if(!t.queue) e.last.assign(t.data.begin() + byte, t.data.begin() + byte + size); e.flag.assign(cnt, false);
        t.events.push_back(e); count("event added");
        break; }
    case C_EDEL: case C_EOPT: {
        int id = (int)u32(d, 4); MEvent *e = nullptr; if(ok) for(auto &x : db[idx].events) if(x.id == id) e = &x;
        if(!e) { expect(1, "there is no such event"); break; }
        if(e->w != w || !mods[w].reg) { expect(1, "the event belongs to another module"); break; }
        if(cmd == C_EOPT && (u32(d, 8) & 1) && e->size + 16 > 4096) { expect(1, "the data is too big"); break; }
        if(!expect(0, "")) break;
        if(cmd == C_EOPT) e->opts = u32(d, 8); else { auto &v = db[idx].events; v.erase(v.begin() + (e - v.data())); count("event deleted"); }
        break; }
    case C_CDT: {
        std::string s = str(d); std::vector<std::string> parts; { size_t p = 0; while(p <= s.size()) { size_t q = s.find(':', p); if(q == std::string::npos) q = s.size(); if(q > p) parts.push_back(s.substr(p, q - p)); p = q + 1; } }
        if(parts.empty() || !validname(parts[0])) { expect(1, "the name is invalid"); break; }
        uint32_t ex = typebyname(parts[0]);
        if(ex) { MType *m = mtype(ex); bool same = m && m->text() == s; if(!expect(same ? 0 : 1, "the type exists with another definition")) break; if(u32(r, 0) != ex) violation("[type-id] creating the existing type %s again returned 0x%x, it is 0x%x", parts[0].c_str(), u32(r, 0), ex); break; }
        MType t; t.name = parts[0]; bool bad = parts.size() < 2; uint64_t bits = 0;
        for(size_t i = 1; i < parts.size() && !bad; i++) {
            std::vector<std::string> f; size_t p = 0; while(p <= parts[i].size()) { size_t q = parts[i].find(',', p); if(q == std::string::npos) q = parts[i].size(); f.push_back(parts[i].substr(p, q - p)); p = q + 1; }
            if(f.size() != 3 || !validname(f[0])) { bad = true; break; }
            MMember m; m.name = f[0]; m.type = typebyname(f[1]); m.count = strtoul(f[2].c_str(), nullptr, 10); if(!m.type || m.count == 0) { bad = true; break; }
            for(auto &x : t.m) if(!strcasecmp(x.name.c_str(), m.name.c_str())) bad = true;
            bits += m.type == DAX_BOOL ? m.count : (uint64_t)typesize(m.type) * 8 * m.count + 7; t.m.push_back(m);
        }
        if(bits > 0x7fffffff || t.text().size() + 5 > 4088) bad = true; // (a definition has to fit into one answer)
        if(!expect(bad ? 1 : 0, "the definition is invalid")) break;
        t.id = u32(r, 0); if(!(t.id & DAX_CUSTOM)) violation("[type-id] the new type %s got the id 0x%x", t.name.c_str(), t.id);
        for(auto &x : types) if(x.id == t.id) violation("[type-id] the new type %s got the id 0x%x of type %s", t.name.c_str(), t.id, x.name.c_str());
        layout(t); types.push_back(t); count("type created");
        break; }
    case C_CDTGET: {
        MType *m = nullptr; if(d[0] == 1) { m = mtype(typebyname(str(tail(1)).substr(0, DAX_TAGNAME_SIZE))); } else if(d[0] == 2) { uint32_t id = u32(d, 1); m = id & DAX_QUEUE ? nullptr : mtype(id); } else break;
        if(!expect(m ? 0 : 1, "there is no such type")) break;
        std::string got = r.size() > 4 ? str(Bytes(r.begin() + 4, r.end())) : "";
        if(u32(r, 0) != m->id || got != m->text()) violation("[type-def] the type %s (0x%x) was reported as 0x%x %s, it was defined as %s", m->name.c_str(), m->id, u32(r, 0), got.c_str(), m->text().c_str());
        count("type definition checked");
        break; }
    case C_MADD: {
        auto rd = [&](size_t o) { return H(u32(d, o), u32(d, o + 4), d[o + 8], u32(d, o + 9), u32(d, o + 13), u32(d, o + 17)); };
        tag_handle s = rd(0), t = rd(21); auto bad = [&](tag_handle &h) { return h.index < 0 || h.index >= (int)db.size() || !db[h.index].exists; };
        if(bad(s) || bad(t)) { expect(1, "there is no such tag"); break; }
        MTag &S = db[s.index], &D = db[t.index];
        if(S.virt || S.queue || D.virt || D.queue) { expect(1, "queues and virtual tags cannot be mapped"); break; }
        if(D.attr & RO) { expect(2, "the destination is read only"); break; }
        if((uint64_t)s.byte + s.size > S.data.size() || (uint64_t)t.byte + t.size > D.data.size()) { expect(1, "the range is outside the tag"); break; }
        bool sb = s.type == DAX_BOOL, tb = t.type == DAX_BOOL;
        if((sb && (s.bit > 7 || !s.count || boolbytes(s.bit, s.count) > s.size)) || (tb && (t.bit > 7 || !t.count || boolbytes(t.bit, t.count) > t.size))) { expect(1, "the bits do not fit"); break; }
        uint64_t nb = sb ? s.count : (uint64_t)s.size * 8, mb = tb ? t.count : (uint64_t)t.size * 8;
        if(nb > mb) { expect(1, "the source is bigger than the destination"); break; }
        if(s.size == 0 || t.size == 0) break;
        if(!expect(0, "")) break;
        int id = (int)u32(r, 0); if(!sb) s.bit = 0; if(!tb) t.bit = 0;
        for(auto &m : S.maps) if(m.id == id) { // only an identical map may get the same id
            auto eq = [](const tag_handle &a, const tag_handle &b) { return a.index == b.index && a.byte == b.byte && a.bit == b.bit && a.count == b.count && a.size == b.size && a.type == b.type; };
            auto ms = m.src, md = m.dst; if(ms.type != DAX_BOOL) ms.bit = s.bit; if(md.type != DAX_BOOL) md.bit = t.bit;
            if(!eq(ms, s) || !eq(md, t)) violation("[map-id] the id %d of a new map of tag %s belongs to a different map", id, S.name.c_str());
            id = -1; break; }
        if(id == -1) break;
        MMap m; m.id = id; m.src = s; m.dst = t; S.maps.insert(S.maps.begin(), m); count("map added");
        break; }
    case C_MDEL: case C_MGET: {
        int id = (int)u32(d, 4); MMap *m = nullptr; if(idx >= 0 && idx < (int)db.size()) for(auto &x : db[idx].maps) if(x.id == id) m = &x;
        if(!m || !ok) { expect(1, "there is no such map"); break; }
        if(!db[m->dst.index].exists) { if(!err && cmd == C_MDEL) db[idx].maps.erase(db[idx].maps.begin() + (m - db[idx].maps.data())); break; } // its destination is gone: may be gone as well
        if(!expect(0, "")) break;
        if(cmd == C_MDEL) { db[idx].maps.erase(db[idx].maps.begin() + (m - db[idx].maps.data())); count("map deleted"); break; }
        if(r.size() < 42) violation("[map-get] the answer has %zu bytes", r.size());
        auto ck = [&](size_t o, tag_handle &h) { return (int)u32(r, o) == h.index && u32(r, o + 4) == h.byte && (h.type != DAX_BOOL || r[o + 8] == h.bit) && u32(r, o + 9) == h.count && u32(r, o + 13) == h.size && u32(r, o + 17) == h.type; };
        if(!ck(0, m->src) || !ck(21, m->dst)) violation("[map-get] map %d of tag %s was reported with other handles: %s", id, db[idx].name.c_str(), hex(r).c_str());
        break; }
    case C_GADD: {
        if(!mods[w].reg) { expect(1, "the module is not registered"); break; }
        uint32_t n = d[0]; if(d.size() < 2 + 21 * n) { expect(1, "it is too short"); break; }
        if(n > 150) { expect(1, "there are too many members"); break; }
        MGroup g; uint64_t sum = 0; bool bad = false;
        for(uint32_t i = 0; i < n; i++) { size_t o = 2 + 21 * i; tag_handle h = H(u32(d, o), u32(d, o + 4), d[o + 8], u32(d, o + 9), u32(d, o + 13), u32(d, o + 17)); sum += h.size; if(h.type == DAX_BOOL && (h.bit > 7 || ((uint64_t)h.bit + h.count + 7) / 8 > h.size)) bad = true; g.m.push_back(h); }
        if(sum > 4084) { expect(1, "it is too big"); break; }
        if(!expect(bad ? 1 : 0, "the bits do not fit")) break;
        g.size = sum; uint32_t id = u32(r, 0);
        if(mods[w].groups.count(id)) violation("[group-id] a new group of connection %d got the id %u of an existing group", w->serial, id);
        mods[w].groups[id] = g; count("group added");
        break; }
    case C_GDEL: if(expect(mods[w].groups.count(u32(d, 0)) ? 0 : 1, "there is no such group")) { mods[w].groups.erase(u32(d, 0)); count("group deleted"); } break;
    case C_GREAD: {
        auto it = mods[w].groups.find(u32(d, 0)); if(it == mods[w].groups.end()) { expect(1, "there is no such group"); break; }
        Bytes x, wild; bool bad = false;
        for(auto &h : it->second.m) {
            if(h.index < 0 || h.index >= (int)db.size() || !db[h.index].exists) { bad = true; break; }
            MTag &t = db[h.index]; if(t.queue || t.virt) return;
            if((uint64_t)h.byte + h.size > t.data.size() || (int32_t)h.byte < 0) { bad = true; break; }
            Bytes v = view(h.index, h.byte, h.size), wv(t.wild.begin() + h.byte, t.wild.begin() + h.byte + h.size);
            if(h.type == DAX_BOOL) { Bytes z(h.size, 0); getbits(v.data(), h.bit, h.count, z.data(), 0); v = z; }
            x.insert(x.end(), v.begin(), v.end()); wild.insert(wild.end(), wv.begin(), wv.end());
        }
        if(!expect(bad ? 1 : 0, "a member does not exist")) break;
        for(size_t i = 0; i < x.size() && i < r.size(); i++) if(wild[i]) x[i] = r[i];
        if(r != x) violation("[group-read] group %u of connection %d returned %s, expected %s", u32(d, 0), w->serial, hex(r).c_str(), hex(x).c_str());
        count("group read checked");
        break; }
    case C_GWRITE: {
        auto it = mods[w].groups.find(u32(d, 0)); if(it == mods[w].groups.end()) { expect(1, "there is no such group"); break; }
        if(d.size() - 4 < it->second.size) { expect(1, "there is not enough data"); break; }
        int bad = 0; for(auto &h : it->second.m) { if(h.index >= 0 && h.index < (int)db.size() && db[h.index].exists && (db[h.index].queue || db[h.index].virt)) return; int b = may_write(w, h.index, h.byte, h.size, false); if(b && !bad) bad = b; }
        if(!expect(bad, bad == 2 ? "a member is read only for it" : "a member does not exist")) break;
        size_t o = 4; auto g = it->second;
        for(auto &h : g.m) {
            if(h.type == DAX_BOOL) { Bytes v(h.size, 0), k(h.size, 0), ones(h.size + 1, 0xff); getbits(&d[o], 0, h.count, v.data(), h.bit); getbits(ones.data(), 0, h.count, k.data(), h.bit); wr(w, h.index, h.byte, v.data(), k.data(), h.size, true); }
            else wr(w, h.index, h.byte, &d[o], nullptr, h.size, true);
            o += h.size;
        }
        count("group write applied");
        break; }
    case C_GMWRITE: expect(1, "it is not implemented"); break;
    case C_OADD: {
        uint32_t off = u32(d, 4), n = (d.size() - 12) / 2;
        if(!ok) { expect(1, "there is no such tag"); break; }
        MTag &t = db[idx]; if(t.queue || t.virt) { expect(1, "there is nothing to override"); break; }
        if((int32_t)off < 0 || (uint64_t)off + n > t.data.size()) { expect(1, "the range is outside the tag"); break; }
        if(!expect(0, "")) break;
        t.odata.resize(t.data.size(), 0); t.omask.resize(t.data.size(), 0);
        for(uint32_t i = 0; i < n; i++) { uint8_t m = d[12 + n + i]; t.odata[off + i] = (t.odata[off + i] & ~m) | (d[12 + i] & m); t.omask[off + i] |= m; }
        if(!t.ovr) { t.ovr = true; int32_t c = 0; for(auto &x : db) c += x.exists && x.ovr; sysw(I_OVRI, &c, 4); }
        count("override added");
        break; }
    case C_ODEL: {
        uint32_t off = u32(d, 4), n = d.size() - 8;
        if(!ok) { expect(1, "there is no such tag"); break; }
        MTag &t = db[idx]; uint64_t sz = t.queue ? tagbytes(t.type, t.count) : t.data.size();
        if((int32_t)off < 0 || (uint64_t)off + n > sz) { expect(1, "the range is outside the tag"); break; }
        if(!t.ovr) { expect(1, "there is no override"); break; }
        if(!expect(0, "")) break;
        for(uint32_t i = 0; i < n; i++) { t.omask[off + i] &= ~d[8 + i]; t.odata[off + i] &= ~d[8 + i]; }
        bool any = false; for(auto x : t.omask) any |= x;
        if(!any) { bool s = t.ovrset; t.ovr = t.ovrset = false; t.odata.clear(); t.omask.clear(); int32_t a = 0, b = 0; for(auto &x : db) if(x.exists) { a += x.ovr; b += x.ovrset; } if(s) sysw(I_OVRS, &b, 4); sysw(I_OVRI, &a, 4); }
        count("override deleted");
        break; }
    case C_OGET: {
        uint32_t off = u32(d, 4), n = u32(d, 8);
        if(!ok) { expect(1, "there is no such tag"); break; }
        MTag &t = db[idx]; if(t.queue || t.virt) { expect(1, "there is nothing to override"); break; }
        if((int32_t)n < 0 || n > 2044 || (int32_t)off < 0 || (uint64_t)off + n > t.data.size()) { expect(1, "the range is outside the tag"); break; }
        if(!expect(0, "")) break;
        Bytes x(t.data.begin() + off, t.data.begin() + off + n); for(uint32_t i = 0; i < n; i++) x.push_back(t.ovr ? t.omask[off + i] : 0);
        if(!cmpwild(r, x, t, off)) violation("[override-get] tag %s offset %u: data and mask %s, expected %s", t.name.c_str(), off, hex(r).c_str(), hex(x).c_str());
        count("override queried");
        break; }
    case C_OSET: {
        if(!ok) { expect(1, "there is no such tag"); break; }
        MTag &t = db[idx]; bool on = d[4] != 0;
        if(on && !t.ovr) { expect(1, "there is no override"); break; }
        if(!expect(0, "")) break;
        if(t.ovrset != on) { t.ovrset = on; int32_t b = 0; for(auto &x : db) b += x.exists && x.ovrset; sysw(I_OVRS, &b, 4); count(on ? "override set" : "override cleared"); }
        break; }
    default: return;
    }
    settle(cmdname(cmd));
}
void model_attach() {
    M.reset();
    model_hook = [](Wire *w, const Frame &rq, const Frame &rsp) { M.apply(w, rq, rsp); };
    on_event_frame = [](Wire *w, const Ev &e) { M.got[w].push_back(e); };
    on_server_close = [](Wire *w) { if(server && server->alive) M.gone(w); };
}
