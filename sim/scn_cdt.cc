// C16: compound types: every module must see the same identity, members and layout, and every textual reference to an
// element, member or bit must address the bits that layout gives it
#include "rawgen.h"
#include <algorithm>
static const char *REALC = "tag server (all of src/server), client library (src/lib), SQLite, Lua";
static const char *STUBC = "sockets, threads, locks, clocks, signals and disk are simulated; module programs are scripted";
namespace {
struct PM { std::string name; int base; int pool; uint32_t count; }; // a member of base type `base` (or of pool type `pool`)
struct PDef { std::string name; std::vector<PM> m; uint64_t bytes; };
struct PTag { std::string name; int pool; uint32_t base, count; };
std::vector<PDef> pool; std::vector<PTag> ptags;
const uint32_t bt[] = {DAX_BOOL, DAX_BOOL, DAX_BOOL, DAX_INT, DAX_BYTE, DAX_DINT, DAX_LINT, DAX_REAL, DAX_LREAL, DAX_SINT, DAX_WORD, DAX_UINT, DAX_DWORD, DAX_UDINT, DAX_LWORD, DAX_ULINT, DAX_TIME, DAX_CHAR};
uint64_t basebits(uint32_t t) { return t == DAX_BOOL ? 1 : (uint64_t)(1u << (t & 15)); }
void make_pool(int k) { // the definitions the modules agree on
    pool.clear(); ptags.clear(); int s = ST_CFG;
    for(int i = 0; i < k; i++) {
        PDef d; d.name = std::string(choose(s, 2) ? "Ty" : "cdt_") + std::to_string(i); if(choose(s, 8) == 7) d.name = ("A_type_of_a_32_character_name" + std::to_string(i)).substr(0, 32); uint64_t pos = 0; int n = choose(s, 12) == 11 ? 40 + choose(s, 60) : 1 + choose(s, 7);
        for(int j = 0; j < n; j++) {
            PM m; m.name = (choose(s, 4) ? "m" : choose(s, 2) ? "Member_" : "X") + std::to_string(j); m.pool = -1; m.base = bt[choose(s, 18)]; m.count = choose(s, 2) ? 1 : 1 + choose(s, m.base == DAX_BOOL ? 20 : 6); uint64_t b = basebits(m.base);
            if(i > 0 && choose(s, 3) == 0) { m.pool = choose(s, i); m.count = choose(s, 2) ? 1 : 1 + choose(s, 4); b = pool[m.pool].bytes * 8; }
            if(m.pool >= 0 || m.base != DAX_BOOL) pos = (pos + 7) / 8 * 8;
            if((pos + b * m.count) / 8 > 900) break;
            pos += b * m.count; d.m.push_back(m);
        }
        if(d.m.empty()) { d.m.push_back({"only", DAX_INT, -1, 1}); pos = 16; }
        d.bytes = (pos + 7) / 8; pool.push_back(d);
    }
    int nt = 2 + choose(s, 8); for(int i = 0; i < nt; i++) { PTag t; t.name = (choose(s, 2) ? "tag" : "T_") + std::to_string(i); t.pool = choose(s, 4) ? (int)choose(s, k) : -1; t.base = bt[choose(s, 18)]; t.count = choose(s, 2) ? 1 : 1 + choose(s, t.pool < 0 && t.base == DAX_BOOL ? 40 : 4); ptags.push_back(t); }
}
struct Ref { std::string text; bool ok = false, any = false; tag_handle h; int n = 0; };
struct Act {
    Client *c; int st; uint32_t R(uint32_t n) { return choose(st, n); } bool P(double p) { return flip(st, p); }
    tag_type type_of(int i, int depth = 0) { // the id of a pool type, creating it (and what it consists of) if need be
        std::string nm = pool[i].name; uint32_t before = M.typebyname(nm); tag_type t = dax_string_to_type(c->ds, &nm[0]);
        if(t) { if(t != M.typebyname(pool[i].name)) violation("[type-id] client %d: dax_string_to_type gave 0x%x for %s, it is 0x%x", c->id, t, nm.c_str(), M.typebyname(pool[i].name)); return t; }
        if(before) violation("[type-id] client %d: dax_string_to_type did not find the type %s", c->id, nm.c_str());
        return create(i, false);
    }
    tag_type create(int i, bool twist) {
        std::vector<MMember> v; for(auto &m : pool[i].m) { MMember x; x.name = m.name; x.count = m.count; x.type = m.pool >= 0 ? type_of(m.pool) : m.base; if(!x.type) violation("[cdt-create] client %d: type %s could not be created", c->id, pool[m.pool].name.c_str()); v.push_back(x); }
        if(twist && !M.typebyname(pool[i].name)) twist = false; // (the first one to define it has the say)
        if(twist) switch(R(7)) { case 0: v.back().count++; break; case 1: v.back().type = v.back().type == DAX_INT ? DAX_UINT : DAX_INT; break; case 2: v.push_back({"extra", DAX_BOOL, 1}); break; case 3: v[R(v.size())].name += "x"; break; case 4: if(v.size() > 1) { v.pop_back(); break; } // fallthrough
            case 5: if(v.size() > 1) std::swap(v[0], v[1]); else v[0].count += 2; break; case 6: v[0].name = std::string(1, v[0].name[0] ^ 32) + v[0].name.substr(1); break; }
        // (whether it is right to accept or refuse it is decided by the model when the server answers)
        int r = 0; tag_type t = api_cdt(c, pool[i].name, v, &r); if(!t && !twist) violation("[cdt-create] client %d: creating type %s as everybody else defines it was refused with %d", c->id, pool[i].name.c_str(), r);
        count(twist ? "different definition of an existing type" : "type defined by several modules"); return t;
    }
    MType *mt(uint32_t t) { for(auto &x : M.types) if(x.id == t) return &x; return nullptr; }
    void check_type() {
        if(M.types.empty()) return;
        MType m = M.types[R(M.types.size())]; 
        switch(R(6)) {
        case 0: { int r = dax_get_typesize(c->ds, m.id | (P(0.2) ? DAX_QUEUE : 0)); if(r != M.typesize(m.id)) violation("[type-size] client %d: dax_get_typesize of %s (%s) gave %d, it is %d", c->id, m.name.c_str(), m.text().c_str(), r, M.typesize(m.id)); break; }
        case 1: { int r = dax_cdt_member_count(c->ds, m.id); if(r != (int)m.m.size()) violation("[members] client %d: dax_cdt_member_count of %s gave %d, it has %zu", c->id, m.name.c_str(), r, m.m.size()); break; }
        case 2: { const char *s = dax_type_to_string(c->ds, m.id); if(!s || m.name != s) violation("[type-name] client %d: type 0x%x is called %s, its name is %s", c->id, m.id, s ? s : "(null)", m.name.c_str()); break; }
        case 3: { std::string n = m.name; if(P(0.3)) for(char &ch : n) if(isalpha((unsigned char)ch) && P(0.5)) ch ^= 32; tag_type t = dax_string_to_type(c->ds, &n[0]); if(t != m.id) violation("[type-id] client %d: dax_string_to_type of %s gave 0x%x, it is 0x%x", c->id, n.c_str(), t, m.id); break; }
        case 4: { struct U { std::vector<MMember> v; } u; int r = dax_cdt_iter(c->ds, m.id, &u, [](cdt_iter i, void *p) { MMember x; x.name = i.name; x.type = i.type; x.count = i.count; x.byte = i.byte; x.bit = i.bit; ((U *)p)->v.push_back(x); });
            if(r) violation("[iter] client %d: dax_cdt_iter of %s failed with %d", c->id, m.name.c_str(), r); bool bad = u.v.size() != m.m.size(); for(size_t k = 0; k < u.v.size() && !bad; k++) { auto &a = u.v[k], &b = m.m[k]; bad = a.name != b.name || a.type != b.type || a.count != b.count || a.byte != b.byte || a.bit != b.bit; if(bad) violation("[iter] client %d: member %s of %s: dax_cdt_iter said %s type 0x%x count %u at byte %d bit %d; its layout (%s) puts it at byte %d bit %d", c->id, b.name.c_str(), m.name.c_str(), a.name.c_str(), a.type, a.count, a.byte, a.bit, m.text().c_str(), b.byte, b.bit); }
            if(bad) violation("[iter] client %d: dax_cdt_iter of %s reported %zu members, it has %zu", c->id, m.name.c_str(), u.v.size(), m.m.size()); break; }
        case 5: { struct U { std::vector<std::pair<std::string, uint32_t>> v; } u; size_t n0 = M.types.size(); int r = dax_cdt_iter(c->ds, 0, &u, [](cdt_iter i, void *p) { ((U *)p)->v.push_back({i.name, i.type}); });
            if(r && r != ERR_NOTFOUND && r != ERR_ARG) violation("[iter] client %d: iterating over the types failed with %d", c->id, r); if(u.v.size() < n0 || u.v.size() > M.types.size()) violation("[iter] client %d: iterating over the types reported %zu, there were %zu", c->id, u.v.size(), n0);
            for(size_t k = 0; k < u.v.size(); k++) { MType *x = mt(u.v[k].second); if(!x || x->name != u.v[k].first) violation("[iter] client %d: iterating over the types reported %s as 0x%x", c->id, u.v[k].first.c_str(), u.v[k].second); for(size_t j = 0; j < k; j++) if(u.v[j].second == u.v[k].second) violation("[iter] client %d: iterating over the types reported %s twice", c->id, x->name.c_str()); } break; }
        } count("type query checked");
    }
    void check_unknown() { uint32_t t = DAX_CUSTOM | (R(3) ? M.types.size() + R(40) : (uint32_t)choose64(st) >> 1); if(mt(t)) return; size_t n0 = M.types.size(); const char *s = dax_type_to_string(c->ds, t); if(s && !mt(t)) violation("[type-name] client %d: the unknown type 0x%x is called %s", c->id, t, s); int z = dax_get_typesize(c->ds, t); if(z > 0 && !mt(t)) violation("[type-size] client %d: the unknown type 0x%x has size %d", c->id, t, z); (void)n0; std::string nn = "Nothing" + std::to_string(R(9)); if(dax_string_to_type(c->ds, &nn[0])) violation("[type-id] client %d: the type %s does not exist but was found", c->id, nn.c_str()); count("unknown type checked"); }
    void add_tag() { PTag &t = ptags[R(ptags.size())]; uint32_t ty = t.pool >= 0 ? type_of(t.pool) : t.base; api_add(c, t.name, ty, t.count, 0); }
    // a textual reference and what it must address, worked out from the layouts only
    Ref ref(int idx) {
        MTag &t = M.db[idx]; Ref r; r.text = t.name; uint64_t pos = 0; uint32_t type = t.type, cnt = t.count; r.ok = true; std::string sfx; int bad = P(0.15) ? 1 + R(9) : 0; bool top = true;
        auto intlike = [](uint32_t x) { return !(x & DAX_CUSTOM) && x != DAX_BOOL && x != DAX_TIME && x != DAX_REAL && x != DAX_LREAL; };
        for(;;) {
            uint64_t bits = type == DAX_BOOL ? 1 : (uint64_t)M.typesize(type) * 8;
            int go = (type & DAX_CUSTOM) && P(0.75) ? 1 : intlike(type) && P(0.3) ? 2 : 0; uint32_t i = 0; bool idxd = false;
            if((go ? cnt > 1 : P(0.5)) || P(0.15)) { idxd = true; i = R(cnt); if(bad == 1 && P(0.5)) { i = cnt + (P(0.5) ? 0 : R(1000)); r.ok = false; } r.text += "[" + std::to_string(i) + "]"; if(bad == 2 && P(0.5)) { static const char *x[] = {"[", "]", "[0]", "x", "[]"}; r.text += x[R(5)]; r.ok = false; } }
            else if(bad == 3 && P(0.5)) { static const char *x[] = {"[]", "[a]", "[-1]", "[1", "[0 ]", "[99999999999]", "[0]x"}; r.text += x[R(7)]; r.ok = false; }
            if(go == 0) {
                r.n = P(0.5) ? 0 : 1 + R(idxd && i < cnt ? cnt - i : cnt); if(bad == 4) { r.n = (idxd ? cnt - std::min(i, cnt) : cnt) + 1 + R(3); r.ok = false; } if(bad == 5) { r.text += type & DAX_CUSTOM ? ".nosuch" : P(0.5) ? ".abc" : type == DAX_BOOL || type == DAX_TIME || type == DAX_REAL || type == DAX_LREAL ? ".0" : ".9999"; r.ok = false; } if(bad == 6) { r.n = -1 - (int)R(5); r.ok = false; }
                uint32_t n = r.n > 0 ? r.n : idxd ? 1 : cnt; pos += i * bits; r.h = H(idx, pos / 8, type == DAX_BOOL ? pos % 8 : 0, n, type == DAX_BOOL ? (pos % 8 + n + 7) / 8 : bits / 8 * n, type); break;
            }
            if(go == 2) {
                uint32_t b = R(bits); r.n = P(0.5) ? 0 : 1 + R(bits - b); if(bad == 7) { b = bits + (P(0.5) ? 0 : R(300)); r.ok = false; } if(bad == 8) { r.n = bits - std::min<uint64_t>(b, bits) + 1 + R(4); r.ok = false; } r.text += "." + std::to_string(b); if(bad == 9) { r.text += P(0.5) ? "x" : ".m0"; r.ok = false; }
                uint32_t n = r.n > 0 ? r.n : 1; pos += i * bits + b; r.h = H(idx, pos / 8, pos % 8, n, (pos % 8 + n + 7) / 8, DAX_BOOL); break;
            }
            MType *m = mt(type); MMember x = m->m[R(m->m.size())]; pos += i * bits + x.byte * 8 + x.bit; r.text += "." + x.name; type = x.type; cnt = x.count; top = false;
        } (void)top;
        return r;
    }
    void check_ref() {
        std::vector<int> v; for(int i = 0; i < (int)M.db.size(); i++) if(M.db[i].exists && !M.db[i].wildname && (i >= 11 ? M.db[i].name[0] != '_' : P(0.1))) v.push_back(i); if(v.empty()) { add_tag(); return; }
        int idx = v[R(v.size())]; if(M.db[idx].name.size() && M.db[idx].name[0] == '_' && P(0.5)) return; Ref f = ref(idx); tag_handle h; memset(&h, 0x5a, sizeof h); std::string s = f.text; int r = dax_tag_handle(c->ds, &h, &s[0], f.n); trace("client %d: dax_tag_handle(%s, %d) -> %d", c->id, f.text.c_str(), f.n, r);
        if(!f.ok) { if(r >= 0) violation("[reference] client %d: the invalid reference %s count %d was accepted", c->id, f.text.c_str(), f.n); count("invalid reference refused"); return; }
        if(r) violation("[reference] client %d: the reference %s count %d was refused with %d", c->id, f.text.c_str(), f.n, r);
        auto same = [](const tag_handle &a, const tag_handle &b) { return a.index == b.index && a.byte == b.byte && a.bit == b.bit && a.count == b.count && a.size == b.size && a.type == b.type; };
        if(!same(h, f.h)) violation("[reference] client %d: %s count %d gave index %d byte %u bit %d count %u size %u type 0x%x, the layout puts it at index %d byte %u bit %d count %u size %u type 0x%x", c->id, f.text.c_str(), f.n, h.index, h.byte, h.bit, h.count, h.size, h.type, f.h.index, f.h.byte, f.h.bit, f.h.count, f.h.size, f.h.type);
        count("reference checked");
        if(P(0.6)) { char *q = dax_fqn(c->ds, h); if(!q) violation("[fqn] client %d: dax_fqn found no name for %s count %d", c->id, f.text.c_str(), f.n); std::string qs = q; free(q); tag_handle g; std::string q2 = qs; r = dax_tag_handle(c->ds, &g, &q2[0], h.count); if(r) violation("[fqn] client %d: dax_fqn turned %s count %d into %s which is refused with %d", c->id, f.text.c_str(), f.n, qs.c_str(), r); if(!same(g, h)) violation("[fqn] client %d: dax_fqn turned %s count %d into %s which is byte %u bit %d count %u type 0x%x, not byte %u bit %d count %u type 0x%x", c->id, f.text.c_str(), f.n, qs.c_str(), g.byte, g.bit, g.count, g.type, h.byte, h.bit, h.count, h.type); count("name round trip checked"); }
        if(M.db[idx].attr & TAG_ATTR_READONLY || M.db[idx].name[0] == '_') return;
        if(h.size > 2000) return;
        Bytes d(h.size); for(auto &b : d) b = R(256); if(h.type == DAX_REAL || h.type == DAX_LREAL || (h.type & DAX_CUSTOM)) for(size_t k = 0; k < d.size(); k++) d[k] &= 0x3f; // (not a number)
        if(P(0.4)) api_write(c, h, d); else if(P(0.3)) { Bytes m(h.size); for(auto &b : m) b = P(0.3) ? R(256) : P(0.5) ? 0xff : 0; api_mask(c, h, d, m); } else api_read(c, h);
    }
    void bad_cdt() { std::vector<MMember> v; int n = 1 + R(4); for(int i = 0; i < n; i++) v.push_back({"q" + std::to_string(i), bt[R(18)], 1 + R(3)}); std::string nm = "Bad" + std::to_string(R(5)); 
        switch(R(8)) { case 0: v[R(n)].count = 0; break; case 1: v[R(n)].name = ""; break; case 2: v[R(n)].name = "9x"; break; case 3: v[R(n)].name = "a b"; break; case 4: nm = P(0.5) ? "1abc" : "x y"; break; case 5: v.push_back(v[0]); v.back().name = "Q0"; v[0].name = "q0"; break; case 6: nm = P(0.5) ? "INT" : "_module"; break; case 7: v.clear(); for(int i = 0; i < 400; i++) v.push_back({"a_very_long_member_name_" + std::to_string(i), DAX_INT, 1}); break; }
        int r = 0; tag_type t = api_cdt(c, nm, v, &r); if(t) violation("[cdt-create] client %d: the invalid type %s was accepted", c->id, nm.c_str()); count("invalid definition refused"); }
    void limit_cdt() { // definitions whose text is about as long as a message
        std::vector<MMember> v; size_t len = 6; while(len < 4040) { std::string nm = "n" + std::to_string(v.size()) + std::string(10, 'z'); v.push_back({nm, DAX_INT, 1}); len += nm.size() + 7; }
        size_t want = 4070 + R(22); for(int i = 0; i < 60 && len < want; i++) { auto &m = v[v.size() - 1 - i % 2]; if(m.name.size() < 32) { m.name += "y"; len++; } } int r; std::string nm = "Lim" + std::to_string(R(3)); api_cdt(c, nm, v, &r); count("definition as long as a message"); }
    void step() { switch(R(13)) { case 0: create(R(pool.size()), false); break; case 1: if(P(0.5)) create(R(pool.size()), true); else type_of(R(pool.size())); break; case 2: case 3: case 4: check_type(); break; case 5: add_tag(); break; case 6: if(P(0.5)) check_unknown(); else if(P(0.6)) bad_cdt(); else if(P(0.2)) limit_cdt(); break; default: check_ref(); break; } if(P(0.15)) sleep_us(choose(st, 3000)); }
    void reconnect() { int r = dax_disconnect(c->ds); if(r) violation("[disconnect] client %d: dax_disconnect returned %d", c->id, r); sleep_us(choose(st, 3000)); r = dax_connect(c->ds); if(r) violation("[connect] client %d could not connect again: %d", c->id, r); c->wire = wire_of_proc(c->proc); count("reconnections"); }
};
}
static void c16_run(bool restart) {
    world_init(); model_attach(); swarm_net(); cfg.p_stall = 0;
    mark_root(spawn("ctl", [restart] {
        start_server(); int n = 1 + choose(ST_CFG, 4); make_pool(1 + choose(ST_CFG, choose(ST_CFG, 3) ? 8 : 30)); double pstop = std::initializer_list<double>{0.04, 0.015, 0.1}.begin()[choose(ST_CFG, 3)]; int phases = restart ? 2 + choose(ST_CFG, 2) : 1;
        int *done = new int(0), *phase = new int(0), *parked = new int(0), *ready = new int(0); std::vector<Client *> cs;
        for(int i = 0; i < n; i++) { bool two = choose(ST_CFG, 4) == 3; cs.push_back(run_client(i, "mod" + std::to_string(i), [=](Client *c) {
            for(int ph = 0; ph < phases; ph++) {
                if(ph) { (*parked)++; if(!wait_until([=] { return *phase == ph; }, 300 * 1000000LL, "server restart")) violation("[no-progress] no restart"); int r = dax_connect(c->ds); if(r) violation("[connect] client %d could not connect to the restarted server: %d", c->id, r); c->wire = wire_of_proc(c->proc); }
                bool *tdone = new bool(!two); if(two) thread(c->proc, "worker", [=] { Act b{c, ST_ACTOR0 + 60 + c->id}; int k = 0; while(k++ < 120 && more(b.st, pstop)) b.step(); *tdone = true; });
                Act a{c, c->stream}; a.add_tag(); int k = 0; while(k++ < 150 && more(c->stream, pstop)) { a.step(); if(!two && a.P(0.01)) a.reconnect(); }
                if(!wait_until([=] { return *tdone; }, 300 * 1000000LL, "worker thread")) violation("[no-progress] calls from several threads did not return");
                if(ph + 1 < phases) { int r = dax_disconnect(c->ds); if(r) violation("[disconnect] client %d: dax_disconnect returned %d", c->id, r); }
            } nontrivial(); })); }
        for(int ph = 1; ph < phases; ph++) {
            if(!wait_until([=] { return *parked == n; }, 600 * 1000000LL, "modules")) violation("[no-progress] the modules did not finish");
            *parked = 0; Proc *old = server; fired(F_SERVERCRASH); kill_proc(old, true, 137, "crash injected"); sleep_us(1000); disk_power_loss();
            int k = 1 + choose(ST_CFG, 12); make_pool(k); M.reset(); start_server(); (*phase)++; count("server restarts");
        }
        wait_clients(cs, 600 * 1000000LL, "the operations"); if(!server->alive) violation("[server-exit] the tag server ended: %s", server->death.c_str()); (void)done; (void)ready;
    })->main);
    run_loop();
}
static void c16_layout() { c16_run(false); }
static void c16_restart() { c16_run(true); }
SCENARIO("C16", "types and references from several modules", 3, c16_layout, REALC, STUBC)
SCENARIO("C16", "other types after a server restart", 1, c16_restart, REALC, STUBC)
