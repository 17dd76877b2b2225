#include "api.h"
#include <algorithm>
bool net_errors_ok = false;
std::function<void(Client *, const char *, int, usec)> on_api_result;
enum { C_ANYWRITE = 1000 }; // either kind of write will do
#define NEOK (net_errors_ok || c->neterr)
bool is_net_error(int r) { return r == ERR_TIMEOUT || r == ERR_DISCONNECTED || r == ERR_MSG_SEND || r == ERR_MSG_RECV || r == ERR_NO_SOCKET; }
uint32_t hsize(uint32_t type, uint8_t bit, uint32_t count) { return type == DAX_BOOL ? boolbytes(bit, count) : M.typesize(type) * count; }
CallInfo api(Client *c, const char *what, uint32_t maincmd, std::function<int()> f, std::function<void(CallInfo &, Wire *, const Frame &, const Frame &)> at, bool cache_ok) {
    CallInfo *ci = new CallInfo; ci->t0 = now; int myserial = c->id;
    {
        OpScope s([ci, at, maincmd](Wire *w, const Frame &q, const Frame &r) { if(q.cmd != maincmd && !(maincmd == C_ANYWRITE && (q.cmd == C_WRITE || q.cmd == C_MWRITE))) return; ci->ans.push_back({q, r}); if(!(r.cmd & RERR) && at) at(*ci, w, q, r); });
        ci->r = f();
    }
    CallInfo out = *ci; // (late answers of a timed out call may still use ci)
    int r = out.r; bool err = !out.ans.empty() && (out.ans.back().second.cmd & RERR); bool okans = !out.ans.empty() && !err;
    trace("client %d: %s -> %d (%zu answers)", c->id, what, r, out.ans.size());
    if(on_api_result) on_api_result(c, what, r, out.t0);
    if(err) {
        int rc = 0; memcpy(&rc, out.ans.back().second.d.data(), 4);
        if(r == 0) violation("[success-without] client %d: %s returned success although the server answered with error %d", c->id, what, rc);
        if(r > 0) violation("[result] client %d: %s returned %d although the server answered with error %d", c->id, what, r, rc);
        if(r != rc && !(is_net_error(r) && NEOK)) violation("[result] client %d: %s returned %d although the server answered with error %d", c->id, what, r, rc);
        if(r != rc) out.net = true;
    } else if(r < 0) {
        if(is_net_error(r)) { out.net = true; if(!NEOK) violation("[net-error] client %d: %s failed with %d although the server is up and the connection is fine (after %lld ms)", c->id, what, r, (long long)(now - out.t0) / 1000); }
        else if(okans && NEOK && (!server->alive || !c->wire || c->wire->dead || c->wire->srv_closed)) out.net = true;
        else if(okans) violation("[result] client %d: %s returned %d although the server answered with success", c->id, what, r);
        else { out.exact = false; } // refused by the library itself
    } else if(!okans && !cache_ok) violation("[success-without] client %d: %s returned %d without any answer of the server", c->id, what, r);
    out.ok = r >= 0; count(out.ok ? "call succeeded" : out.net ? "call failed (network)" : "call refused");
    return out;
}
#define REJECTED(ci, cond) if(!(ci).ok && !(ci).net && !(ci).exact && !(cond)) violation("[lib-refused] client %d: the library refused a valid call with %d", c->id, (ci).r)
int api_read(Client *c, tag_handle h, Bytes *out) {
    Bytes buf(h.size + 16, 0xA5); Bytes exp(h.size, 0), seen(h.size, 0), wild(h.size, 0);
    CallInfo ci = api(c, "dax_tag_read", C_READ, [&] { return dax_tag_read(c->ds, h, buf.data()); }, [&](CallInfo &i, Wire *, const Frame &q, const Frame &r) {
        uint32_t off, n; memcpy(&off, &q.d[4], 4); memcpy(&n, &q.d[8], 4); int idx; memcpy(&idx, &q.d[0], 4);
        if(idx != h.index || off < h.byte || off + n > h.byte + h.size) violation("[read-range] client %d: reading tag %d bytes %u..%u asked the server for tag %d bytes %u..%u", c->id, h.index, h.byte, h.byte + h.size, idx, off, off + n);
        MTag &t = M.db[idx]; Bytes v;
        if(t.queue || t.virt) v = r.d; else v = M.view(idx, off, n);
        for(uint32_t k = 0; k < n; k++) { exp[off - h.byte + k] = v[k]; seen[off - h.byte + k] = 1; wild[off - h.byte + k] = off + k < t.wild.size() && t.wild[off + k]; } });
    if(ci.ok) {
        for(auto s : seen) if(!s) violation("[read-short] client %d: reading %u bytes of tag %d succeeded without asking for all of them", c->id, h.size, h.index);
        bool bad = false;
        if(h.type == DAX_BOOL) { Bytes z(h.size, 0); getbits(exp.data(), h.bit, h.count, z.data(), 0); for(uint32_t i = 0; i < h.count; i++) if(((buf[i / 8] ^ z[i / 8]) >> (i % 8)) & 1) bad = true; exp = z; }
        else for(uint32_t i = 0; i < h.size; i++) if(buf[i] != exp[i] && !wild[i]) bad = true;
        Bytes g(buf.begin(), buf.begin() + h.size);
        if(bad) violation("[read-data] client %d: reading tag %d byte %u bit %d count %u type 0x%x returned %s, expected %s", c->id, h.index, h.byte, h.bit, h.count, h.type, hex(g).c_str(), hex(exp).c_str());
        for(int i = 0; i < 16; i++) if(buf[h.size + i] != 0xA5) violation("[read-overrun] client %d: reading %u bytes wrote beyond the buffer", c->id, h.size);
        if(out) *out = g;
    }
    return ci.r;
}
// verifies that what a write did to the tag is what the call says
static void effect(Client *c, const char *what, int idx, const Bytes &expect) {
    MTag &t = M.db[idx]; if(t.queue) return;
    if(t.data != expect) { size_t i = 0; while(i < expect.size() && i < t.data.size() && expect[i] == t.data[i]) i++; violation("[write-effect] client %d: %s of tag %d changed it to %s, expected %s (first difference in byte %zu)", c->id, what, idx, hex(t.data).c_str(), hex(expect).c_str(), i); }
}
static bool selfmap(int idx) { for(auto &m : M.db[idx].maps) if(m.dst.index == idx) return true; return false; }
int api_write(Client *c, tag_handle h, const Bytes &d) { Bytes ones(d.size(), 0xff);
    Bytes buf = d; Bytes cov(h.size, 0);
    CallInfo ci; bool masked = h.type == DAX_BOOL && (h.bit > 0 || h.count % 8); (void)masked;
    auto at = [&](CallInfo &i, Wire *, const Frame &q, const Frame &) {
        uint32_t off; memcpy(&off, &q.d[4], 4); uint32_t n = q.d.size() - 8; int idx; memcpy(&idx, &q.d[0], 4); if(q.cmd == C_MWRITE) n /= 2;
        if(idx != h.index || off < h.byte || off + n > h.byte + h.size) violation("[write-range] client %d: writing tag %d bytes %u..%u sent a write of tag %d bytes %u..%u", c->id, h.index, h.byte, h.byte + h.size, idx, off, off + n);
        for(uint32_t k = 0; k < n; k++) cov[off - h.byte + k] = 1;
        MTag &t = M.db[idx]; if(t.queue) { if(t.q.back() != Bytes(d.begin(), d.begin() + h.size)) violation("[queue-write] client %d: the element written to queue %d is not the data given", c->id, idx); return; }
        if(selfmap(idx)) return;
        Bytes e = M.prev;
        for(uint32_t k = 0; k < n; k++) { uint32_t b = off - h.byte + k; // byte b of the handle's range
            if(h.type == DAX_BOOL) { for(int x = 0; x < 8; x++) { int p = (int)b * 8 + x - h.bit; if(p >= 0 && p < (int)h.count) { bool v = d[p / 8] >> (p % 8) & 1; e[off + k] = v ? e[off + k] | (1 << x) : e[off + k] & ~(1 << x); } } }
            else e[off + k] = d[b]; }
        effect(c, "dax_tag_write", idx, e); };
    bool m = false; // the library may use either request
    CallInfo *dummy = nullptr; (void)dummy; (void)m;
    ci = api(c, "dax_tag_write", C_ANYWRITE, [&] { return dax_tag_write(c->ds, h, buf.data()); }, at);
    if(ci.ok) { if(buf != d) violation("[write-input] client %d: dax_tag_write changed the caller's data", c->id); for(auto s : cov) if(!s) violation("[write-short] client %d: writing %u bytes of tag %d succeeded without sending all of them", c->id, h.size, h.index); }
    return ci.r;
}
int api_mask(Client *c, tag_handle h, const Bytes &d, const Bytes &m) {
    Bytes buf = d, mk = m; Bytes cov(h.size, 0);
    CallInfo ci = api(c, "dax_tag_mask", C_MWRITE, [&] { return dax_tag_mask(c->ds, h, buf.data(), mk.data()); }, [&](CallInfo &i, Wire *, const Frame &q, const Frame &) {
        uint32_t off; memcpy(&off, &q.d[4], 4); uint32_t n = (q.d.size() - 8) / 2; int idx; memcpy(&idx, &q.d[0], 4);
        if(idx != h.index || off < h.byte || off + n > h.byte + h.size) violation("[write-range] client %d: masked write of tag %d bytes %u..%u sent a write of tag %d bytes %u..%u", c->id, h.index, h.byte, h.byte + h.size, idx, off, off + n);
        for(uint32_t k = 0; k < n; k++) cov[off - h.byte + k] = 1;
        if(selfmap(idx)) return;
        Bytes e = M.prev;
        for(uint32_t k = 0; k < n; k++) { uint32_t b = off - h.byte + k;
            if(h.type == DAX_BOOL) { for(int x = 0; x < 8; x++) { int p = (int)b * 8 + x - h.bit; if(p >= 0 && p < (int)h.count && (m[p / 8] >> (p % 8) & 1)) { bool v = d[p / 8] >> (p % 8) & 1; e[off + k] = v ? e[off + k] | (1 << x) : e[off + k] & ~(1 << x); } } }
            else e[off + k] = (e[off + k] & ~m[b]) | (d[b] & m[b]); }
        effect(c, "dax_tag_mask", idx, e); });
    if(ci.ok) for(auto s : cov) if(!s) violation("[write-short] client %d: a masked write of %u bytes of tag %d succeeded without sending all of them", c->id, h.size, h.index);
    return ci.r;
}
int api_rread(Client *c, int idx, uint32_t off, uint32_t n, Bytes *out) {
    Bytes buf(n + 16, 0xA5), exp;
    CallInfo ci = api(c, "dax_read", C_READ, [&] { return dax_read(c->ds, idx, off, buf.data(), n); }, [&](CallInfo &i, Wire *, const Frame &q, const Frame &r) { MTag &t = M.db[idx]; if(t.queue || t.virt) exp = r.d; else exp = M.view(idx, off, n); for(uint32_t k = 0; k < n && off + k < t.wild.size(); k++) if(t.wild[off + k]) exp[k] = r.d[k]; });
    if(ci.ok) { Bytes g(buf.begin(), buf.begin() + n); if(g != exp) violation("[read-data] client %d: dax_read of tag %d offset %u size %u returned %s, expected %s", c->id, idx, off, n, hex(g).c_str(), hex(exp).c_str()); if(out) *out = g; for(int i = 0; i < 16; i++) if(buf[n + i] != 0xA5) violation("[read-overrun] client %d: dax_read wrote beyond the buffer", c->id); }
    return ci.r;
}
int api_rwrite(Client *c, int idx, uint32_t off, const Bytes &d) { Bytes b = d;
    return api(c, "dax_write", C_WRITE, [&] { return dax_write(c->ds, idx, off, b.data(), b.size()); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) { if(M.db[idx].queue || selfmap(idx)) return; Bytes e = M.prev; std::copy(d.begin(), d.end(), e.begin() + off); effect(c, "dax_write", idx, e); }).r; }
int api_rmask(Client *c, int idx, uint32_t off, const Bytes &d, const Bytes &m) { Bytes b = d, k = m;
    return api(c, "dax_mask", C_MWRITE, [&] { return dax_mask(c->ds, idx, off, b.data(), k.data(), b.size()); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) { if(selfmap(idx)) return; Bytes e = M.prev; for(size_t i = 0; i < d.size(); i++) e[off + i] = (e[off + i] & ~m[i]) | (d[i] & m[i]); effect(c, "dax_mask", idx, e); }).r; }
int api_atomic(Client *c, tag_handle h, const Bytes &d, int op) { Bytes b = d; b.resize(std::max<size_t>(d.size(), h.size) + 8, 0);
    return api(c, "dax_atomic_op", C_ATOMIC, [&] { return dax_atomic_op(c->ds, h, b.data(), op); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) { if(selfmap(h.index)) return; Bytes e = M.prev; Bytes arg = d; arg.resize(h.size + 8, 0); if(!atomic_exact(e.data() + h.byte, h.type, h.bit, h.count, h.size, arg.data(), op)) violation("[atomic-accepted] operation %d on type 0x%x count %u was accepted", op, h.type, h.count); effect(c, "dax_atomic_op", h.index, e); }).r; }
int api_add(Client *c, const std::string &name, uint32_t type, int count, uint32_t attr, tag_handle *out) {
    tag_handle h; memset(&h, 0xEE, sizeof h); int idx = -1; uint32_t cnt = 0;
    CallInfo ci = api(c, "dax_tag_add", C_ADD, [&] { return dax_tag_add(c->ds, &h, (char *)name.c_str(), type, count, attr); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) { idx = M.find(name); cnt = idx < 0 ? 0 : M.db[idx].count; if(idx < 0 || M.db[idx].type != type || (int)cnt < count) violation("[add-effect] client %d: adding %s type 0x%x count %d: the server has %s type 0x%x count %u", c->id, name.c_str(), type, count, idx < 0 ? "no such tag" : name.c_str(), idx < 0 ? 0 : M.db[idx].type, cnt); });
    if(ci.ok) { uint32_t sz = (type & ~DAX_QUEUE) == DAX_BOOL ? boolbytes(0, count) : M.typesize(type) * count;
        if(h.index != idx || h.byte != 0 || h.bit != 0 || (int)h.count != count || h.type != type || h.size != sz) violation("[add-handle] client %d: adding %s type 0x%x count %d (index %d) returned handle index %d byte %u bit %d count %u size %u type 0x%x", c->id, name.c_str(), type, count, idx, h.index, h.byte, h.bit, h.count, h.size, h.type);
        if(out) *out = h; }
    return ci.r;
}
int api_del(Client *c, int idx) { return api(c, "dax_tag_del", C_DEL, [&] { return dax_tag_del(c->ds, idx); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &) { int x; memcpy(&x, &q.d[0], 4); if(x != idx) violation("[del-effect] client %d: deleting tag %d deleted tag %d", c->id, idx, x); }).r; }
static int lookup(Client *c, const char *what, const std::string *name, int idx, dax_tag *out) {
    dax_tag t; memset(&t, 0xEE, sizeof t); int ei = -1; uint32_t ec = 0, ea = 0; bool srv = false;
    CallInfo ci = api(c, what, C_GET, [&] { return name ? dax_tag_byname(c->ds, &t, (char *)name->c_str()) : dax_tag_byindex(c->ds, &t, idx); }, [&](CallInfo &, Wire *, const Frame &, const Frame &r) { int32_t x; memcpy(&x, &r.d[0], 4); ei = x; ec = M.db[ei].count; ea = M.db[ei].attr; srv = true; if(name && !M.db[ei].wildname && M.db[ei].name != *name) violation("[lookup] client %d: looking up %s asked for %s", c->id, name->c_str(), M.db[ei].name.c_str()); if(!name && ei != idx) violation("[lookup] client %d: looking up index %d asked for %d", c->id, idx, ei); }, true);
    if(ci.ok) {
        if(t.idx < 0 || t.idx >= (int)M.db.size()) violation("[lookup] client %d: %s returned index %d", c->id, what, t.idx);
        MTag &m = M.db[t.idx];
        if(!m.wildname) {
            if(name && m.name != *name) violation("[lookup] client %d: looking up %s returned index %d which is %s", c->id, name->c_str(), t.idx, m.name.c_str());
            if(!name && t.idx != idx) violation("[lookup] client %d: looking up index %d returned index %d", c->id, idx, t.idx);
            if(m.name != t.name || m.type != t.type || t.count > m.count) violation("[lookup] client %d: tag %d was returned as %s type 0x%x count %u, it is %s type 0x%x count %u", c->id, t.idx, t.name, t.type, t.count, m.name.c_str(), m.type, m.count);
            if(srv && (t.count != ec || t.idx != ei || (t.attr & 0x25) != (ea & 0x25))) violation("[lookup] client %d: tag %d was returned with count %u attributes 0x%x, the server has count %u attributes 0x%x", c->id, t.idx, t.count, t.attr, ec, ea);
        }
        if(out) *out = t;
    }
    return ci.r;
}
int api_byname(Client *c, const std::string &n, dax_tag *out) { return lookup(c, "dax_tag_byname", &n, 0, out); }
int api_byindex(Client *c, int idx, dax_tag *out) { return lookup(c, "dax_tag_byindex", nullptr, idx, out); }
int api_event_add(Client *c, tag_handle h, int et, const Bytes &data, dax_id *id, void (*cb)(dax_state *, void *), void *ud) {
    Bytes d = data; d.resize(16, 0); dax_id x = {-7, -7}; int eid = 0;
    CallInfo ci = api(c, "dax_event_add", C_EADD, [&] { return dax_event_add(c->ds, &h, et, d.data(), &x, cb, ud, nullptr); }, [&](CallInfo &, Wire *w, const Frame &q, const Frame &r) {
        memcpy(&eid, &r.d[0], 4); MEvent *e = nullptr; for(auto &v : M.db[h.index].events) if(v.id == eid) e = &v;
        if(!e) violation("[event-add] client %d: the event was not added to tag %d", c->id, h.index);
        bool need = et == EVENT_EQUAL || et == EVENT_GREATER || et == EVENT_LESS || et == EVENT_DEADBAND;
        if(e->etype != (uint32_t)et || e->byte != h.byte || (h.type == DAX_BOOL && e->bit != h.bit) || e->count != h.count || e->size != h.size || e->dt != h.type || (need && memcmp(e->data.data(), data.data(), M.typesize(h.type)))) violation("[event-add] client %d: the event sent to the server is not the one asked for (data %s, given %s)", c->id, hex(e->data).c_str(), hex(data).c_str()); });
    if(ci.ok) { if(x.index != h.index || x.id != eid) violation("[event-id] client %d: dax_event_add returned id %d,%d, the server's is %d,%d", c->id, x.index, x.id, h.index, eid); if(id) *id = x; }
    return ci.r;
}
int api_event_del(Client *c, dax_id id) { return api(c, "dax_event_del", C_EDEL, [&] { return dax_event_del(c->ds, id); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &) { int a, b; memcpy(&a, &q.d[0], 4); memcpy(&b, &q.d[4], 4); if(a != id.index || b != id.id) violation("[event-del] another event was deleted"); }).r; }
int api_event_opt(Client *c, dax_id id, uint32_t o) { return api(c, "dax_event_options", C_EOPT, [&] { return dax_event_options(c->ds, id, o); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &) { int a, b; memcpy(&a, &q.d[0], 4); memcpy(&b, &q.d[4], 4); uint32_t x; memcpy(&x, &q.d[8], 4); if(a != id.index || b != id.id || x != o) violation("[event-opt] the options of another event were changed"); }).r; }
static bool heq(const tag_handle &a, const tag_handle &b) { return a.index == b.index && a.byte == b.byte && (a.type != DAX_BOOL || a.bit == b.bit) && a.count == b.count && a.size == b.size && a.type == b.type; }
int api_map_add(Client *c, tag_handle s, tag_handle d, dax_id *id) { dax_id x = {-7, -7}; int mid = 0;
    CallInfo ci = api(c, "dax_map_add", C_MADD, [&] { return dax_map_add(c->ds, &s, &d, &x); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &r) { memcpy(&mid, &r.d[0], 4); for(auto &m : M.db[s.index].maps) if(m.id == mid) { if(!heq(m.src, s) || !heq(m.dst, d)) violation("[map-add] client %d: the map sent to the server is not the one asked for", c->id); return; } violation("[map-add] client %d: the map was not added to tag %d", c->id, s.index); });
    if(ci.ok) { if(x.index != s.index || x.id != mid) violation("[map-id] client %d: dax_map_add returned id %d,%d, the server's is %d,%d", c->id, x.index, x.id, s.index, mid); if(id) *id = x; }
    return ci.r; }
int api_map_del(Client *c, dax_id id) { return api(c, "dax_map_del", C_MDEL, [&] { return dax_map_del(c->ds, id); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &) { int a, b; memcpy(&a, &q.d[0], 4); memcpy(&b, &q.d[4], 4); if(a != id.index || b != id.id) violation("[map-del] another map was deleted"); }).r; }
int api_map_get(Client *c, dax_id id) { tag_handle s, d; memset(&s, 0, sizeof s); d = s; MMap e; bool have = false;
    CallInfo ci = api(c, "dax_map_get", C_MGET, [&] { return dax_map_get(c->ds, &s, &d, id); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) { for(auto &m : M.db[id.index].maps) if(m.id == id.id) { e = m; have = true; } });
    if(ci.ok && have && (!heq(s, e.src) || !heq(d, e.dst))) violation("[map-get] client %d: dax_map_get returned other handles than the map has", c->id);
    return ci.r; }
tag_group_id *api_group_add(Client *c, std::vector<tag_handle> m) { tag_group_id *g = nullptr; int res = -1000;
    CallInfo ci = api(c, "dax_group_add", C_GADD, [&] { g = dax_group_add(c->ds, &res, m.data(), m.size(), 0); return g ? 0 : (res < 0 ? res : -1); }, [&](CallInfo &, Wire *w, const Frame &q, const Frame &r) { uint32_t id; memcpy(&id, &r.d[0], 4); auto &gm = M.mods[w].groups[id].m; bool ok = gm.size() == m.size(); for(size_t i = 0; ok && i < m.size(); i++) ok = heq(gm[i], m[i]); if(!ok) violation("[group-add] client %d: the group sent to the server is not the one asked for", c->id); });
    if(g) { uint32_t s = 0; for(auto &h : m) s += h.size; if(dax_group_get_size(g) != (int)s) violation("[group-size] client %d: dax_group_get_size is %d, expected %u", c->id, dax_group_get_size(g), s); }
    return g; }
int api_group_del(Client *c, tag_group_id *g) { return api(c, "dax_group_del", C_GDEL, [&] { return dax_group_del(c->ds, g); }).r; }
int api_group_read(Client *c, tag_group_id *g, const std::vector<tag_handle> &m) { uint32_t s = 0; for(auto &h : m) s += h.size; Bytes b(s + 16, 0xA5), exp, wild;
    CallInfo ci = api(c, "dax_group_read", C_GREAD, [&] { return dax_group_read(c->ds, g, b.data(), s); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &r) {
        for(auto &h : m) { Bytes v = M.view(h.index, h.byte, h.size); if(h.type == DAX_BOOL) { Bytes z(h.size, 0); getbits(v.data(), h.bit, h.count, z.data(), 0); v = z; } for(uint32_t k = 0; k < h.size; k++) { exp.push_back(v[k]); wild.push_back(M.db[h.index].wild[h.byte + k]); } } });
    if(ci.ok) { for(uint32_t i = 0; i < s; i++) if(b[i] != exp[i] && !wild[i]) violation("[group-read] client %d: dax_group_read returned %s, expected %s", c->id, hex(Bytes(b.begin(), b.begin() + s)).c_str(), hex(exp).c_str()); for(int i = 0; i < 16; i++) if(b[s + i] != 0xA5) violation("[group-read] client %d: wrote beyond the buffer", c->id); }
    return ci.r; }
int api_group_write(Client *c, tag_group_id *g, const std::vector<tag_handle> &m, const Bytes &d) { Bytes b = d; b.resize(d.size() + 8, 0);
    return api(c, "dax_group_write", C_GWRITE, [&] { return dax_group_write(c->ds, g, b.data()); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &) {
        // later members may overwrite earlier ones: check the last writer of every bit
        size_t o = 0; std::map<std::pair<int, uint32_t>, bool> bits; for(auto &h : m) { uint32_t n = h.type == DAX_BOOL ? h.count : h.size * 8, b0 = h.type == DAX_BOOL ? h.bit : 0; for(uint32_t i = 0; i < n; i++) bits[{h.index, h.byte * 8 + b0 + i}] = d[o + i / 8] >> (i % 8) & 1; o += h.size; }
        for(auto &k : bits) { MTag &t = M.db[k.first.first]; bool mapped = false; for(auto &x : M.db) if(x.exists) for(auto &mm : x.maps) if(mm.dst.index == k.first.first) mapped = true; if(mapped) continue; if((t.data[k.first.second / 8] >> (k.first.second % 8) & 1) != k.second) violation("[group-write] client %d: after dax_group_write bit %u of tag %d is not the one given", c->id, k.first.second, k.first.first); } }).r; }
int api_oadd(Client *c, tag_handle h, const Bytes &d) { Bytes b = d; return api(c, "dax_tag_add_override", C_OADD, [&] { return dax_tag_add_override(c->ds, h, b.data()); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) {
    MTag &t = M.db[h.index]; uint32_t n = h.type == DAX_BOOL ? h.count : h.size * 8, b0 = h.byte * 8 + (h.type == DAX_BOOL ? h.bit : 0);
    for(uint32_t p = 0; p < t.data.size() * 8; p++) { bool in = p >= b0 && p < b0 + n; bool was = p / 8 < M.prev_omask.size() && (M.prev_omask[p / 8] >> (p % 8) & 1), is = t.omask[p / 8] >> (p % 8) & 1; if(is != (in || was)) violation("[override-mask] client %d: after adding an override to bits %u..%u of tag %d bit %u is %soverridden", c->id, b0, b0 + n - 1, h.index, p, is ? "" : "not "); if(in && (t.odata[p / 8] >> (p % 8) & 1) != (d[(p - b0) / 8] >> ((p - b0) % 8) & 1)) violation("[override-data] client %d: the override of bit %u of tag %d is not the one given", c->id, p, h.index); } }).r; }
int api_odel(Client *c, tag_handle h) { return api(c, "dax_tag_del_override", C_ODEL, [&] { return dax_tag_del_override(c->ds, h); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) {
    MTag &t = M.db[h.index]; uint32_t n = h.type == DAX_BOOL ? h.count : h.size * 8, b0 = h.byte * 8 + (h.type == DAX_BOOL ? h.bit : 0);
    for(uint32_t p = 0; p < t.data.size() * 8; p++) { bool in = p >= b0 && p < b0 + n; bool was = p / 8 < M.prev_omask.size() && (M.prev_omask[p / 8] >> (p % 8) & 1), is = p / 8 < t.omask.size() && (t.omask[p / 8] >> (p % 8) & 1); if(is != (was && !in)) violation("[override-mask] client %d: after deleting the override of bits %u..%u of tag %d bit %u is %soverridden", c->id, b0, b0 + n - 1, h.index, p, is ? "" : "not "); } }).r; }
int api_oget(Client *c, tag_handle h) { Bytes d(h.size + 8, 0xA5), m(h.size + 8, 0xA5), ed, em; CallInfo ci = api(c, "dax_tag_get_override", C_OGET, [&] { return dax_tag_get_override(c->ds, h, d.data(), m.data()); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) { MTag &t = M.db[h.index]; ed.assign(t.data.begin() + h.byte, t.data.begin() + h.byte + h.size); if(t.ovr) em.assign(t.omask.begin() + h.byte, t.omask.begin() + h.byte + h.size); else em.assign(h.size, 0); });
    if(ci.ok) { d.resize(h.size); m.resize(h.size); if(d != ed || m != em) violation("[override-get] client %d: dax_tag_get_override returned data %s mask %s, expected %s %s", c->id, hex(d).c_str(), hex(m).c_str(), hex(ed).c_str(), hex(em).c_str()); }
    return ci.r; }
int api_oset(Client *c, tag_handle h, bool on) { return api(c, on ? "dax_tag_set_override" : "dax_tag_clr_override", C_OSET, [&] { return on ? dax_tag_set_override(c->ds, h) : dax_tag_clr_override(c->ds, h); }, [&](CallInfo &, Wire *, const Frame &, const Frame &) { if(M.db[h.index].ovrset != on) violation("[override-set] client %d: the override of tag %d is %s", c->id, h.index, on ? "not set" : "still set"); }).r; }

uint32_t api_cdt(Client *c, const std::string &name, const std::vector<MMember> &m, int *result) {
    int err = 0; std::string nm = name; dax_cdt *t = dax_cdt_new(&nm[0], &err); if(!t) { if(name.size() <= DAX_TAGNAME_SIZE) violation("[cdt-new] dax_cdt_new refused %s with %d", name.c_str(), err); if(result) *result = err; return 0; }
    for(auto &x : m) { std::string mn = x.name; int r = dax_cdt_member(c->ds, t, &mn[0], x.type, x.count); if(r) { bool net = is_net_error(r) || r == ERR_ARG; bool dup = false; for(auto &y : m) if(&y != &x && y.name == x.name) dup = true; if(!(NEOK && net) && !dup && M.typeok(x.type) && x.name.size() <= DAX_TAGNAME_SIZE) violation("[cdt-member] client %d: dax_cdt_member refused member %s with %d", c->id, x.name.c_str(), r); dax_cdt_free(t); if(result) *result = r; return 0; } }
    tag_type ty = 0; uint32_t sid = 0; std::string want = name; for(auto &x : m) want += ":" + x.name + "," + M.typestr(x.type) + "," + std::to_string(x.count);
    CallInfo ci = api(c, "dax_cdt_create", C_CDT, [&] { return dax_cdt_create(c->ds, t, &ty); }, [&](CallInfo &, Wire *, const Frame &q, const Frame &r) { memcpy(&sid, &r.d[0], 4); std::string s(q.d.begin(), std::find(q.d.begin(), q.d.end(), 0)); if(s != want) violation("[cdt-create] client %d: the definition sent is %s, expected %s", c->id, s.c_str(), want.c_str()); });
    if(result) *result = ci.r;
    if(!ci.ok) return 0;
    if(ty != sid) violation("[cdt-create] client %d: dax_cdt_create of %s gave type 0x%x, the server said 0x%x", c->id, name.c_str(), ty, sid);
    return ty;
}
// ---------------------------------------------------------------- generator
static const uint32_t basetypes[] = {DAX_INT, DAX_BOOL, DAX_DINT, DAX_BYTE, DAX_REAL, DAX_SINT, DAX_WORD, DAX_UINT, DAX_DWORD, DAX_UDINT, DAX_LINT, DAX_ULINT, DAX_LWORD, DAX_LREAL, DAX_TIME, DAX_CHAR};
int Gen::picktag(bool real_ok, bool queue, bool any) {
    std::vector<int> v; for(int i = 0; i < (int)M.db.size(); i++) { MTag &t = M.db[i]; if(!t.exists || t.name[0] == '_' || t.queue != queue) continue; if(!real_ok && (t.type == DAX_REAL || t.type == DAX_LREAL)) continue; if(!any && usable && !usable(i)) continue; v.push_back(i); }
    if(v.empty()) return -1;
    return v[R(v.size())];
}
tag_handle Gen::handle(int idx, bool bitview) {
    MTag &t = M.db[idx];
    if(t.queue) return H(idx, 0, 0, t.count, M.tagbytes(t.type, t.count), t.type);
    uint32_t type = t.type, n = t.count;
    if(bitview && type != DAX_BOOL && type != DAX_REAL && type != DAX_LREAL) { type = DAX_BOOL; n = t.data.size() * 8; }
    uint32_t first = P(0.5) ? 0 : R(n), cnt = P(0.3) ? n - first : 1 + R(n - first);
    if(type == DAX_BOOL) { if(cnt > 64) cnt = 1 + R(64); return H(idx, first / 8, first % 8, cnt, boolbytes(first % 8, cnt), DAX_BOOL); }
    uint32_t ts = M.typesize(type); if(cnt * ts > 4000) cnt = std::max<uint32_t>(1, 4000 / ts); return H(idx, first * ts, 0, cnt, cnt * ts, type);
}
Bytes Gen::bytes(uint32_t n) { Bytes b(n, 0); int mode = R(5); for(uint32_t i = 0; i < n; i++) b[i] = mode == 0 ? (i == 0 ? R(4) : 0) : mode == 1 ? 0xff : mode == 2 ? (i % 8 == 7 ? 0 : R(3)) : R(256); return b; }
Bytes Gen::data(const tag_handle &h) {
    Bytes b(h.size, 0);
    auto put = [&](uint32_t i, auto v) { memcpy(b.data() + i * sizeof v, &v, sizeof v); };
    static const int64_t sp[] = {0, 1, 2, 3, 5, -1, -2, 100, 127, -128, 255, 256, 32767, -32768, 65535, 2147483647LL, -2147483648LL, 4294967295LL, INT64_MAX, INT64_MIN, 1000000007LL};
    int wide = R(4);
    for(uint32_t i = 0; i < h.count && !(h.type & (DAX_CUSTOM | DAX_QUEUE)); i++) {
        int64_t v = wide == 0 ? sp[R(sizeof sp / sizeof *sp)] : wide == 1 ? (int64_t)choose64(c->stream) : (int64_t)R(8);
        switch(h.type) { case DAX_BOOL: break; case DAX_REAL: put(i, (float)((int)R(41) - 20) / (float)(1 + R(4))); break; case DAX_LREAL: put(i, (double)((int)R(41) - 20) / (double)(1 + R(4))); break;
            default: memcpy(b.data() + i * M.typesize(h.type), &v, M.typesize(h.type)); } }
    if(h.type == DAX_BOOL || (h.type & (DAX_CUSTOM | DAX_QUEUE))) b = bytes(h.size);
    return b;
}
bool Gen::step() { double tot = 0; for(double x : w) tot += x; double r = (choose(c->stream, 1 << 20) + 0.5) / (1 << 20) * tot; int k = 0; while(k < W_N - 1 && (r -= w[k]) > 0) k++; op(k); return !(c->ds == nullptr); }
void Gen::op(int k) {
    state(M.digest());
    auto badidx = [&]() -> int { switch(R(4)) { case 0: return -1; case 1: return M.db.size() + R(100); case 2: { for(int i = 0; i < (int)M.db.size(); i++) if(!M.db[i].exists && M.db[i].name.size()) return i; return 100000; } default: return 0x7fffffff; } };
    int et[] = {EVENT_WRITE, EVENT_CHANGE, EVENT_SET, EVENT_RESET, EVENT_EQUAL, EVENT_GREATER, EVENT_LESS, EVENT_DEADBAND, EVENT_DELETED};
    bool bad = P(p_bad); int idx;
    switch(k) {
    case W_READ: { idx = picktag(true, false, true); if(idx < 0) return; tag_handle h = handle(idx, P(0.15)); if(bad) { if(P(0.5)) h.index = badidx(); else { h.byte += M.db[idx].data.size(); } } api_read(c, h); break; }
    case W_WRITE: { idx = picktag(); if(idx < 0) return; tag_handle h = handle(idx, P(0.15)); Bytes d = data(h); if(bad) { if(P(0.5)) h.index = badidx(); else h.byte += M.db[idx].data.size(); } api_write(c, h, d); break; }
    case W_MASK: { idx = picktag(false); if(idx < 0) return; tag_handle h = handle(idx, P(0.3)); Bytes d = data(h), m = bytes(h.size); if(h.size * 2 + 8 > 4088) break; if(bad) h.index = badidx(); api_mask(c, h, d, m); break; }
    case W_RREAD: { idx = picktag(true, false, true); if(idx < 0) return; uint32_t sz = M.db[idx].data.size(), off = R(sz), n = 1 + R(std::min<uint32_t>(sz - off, 4000)); if(bad) n += sz; if(n > 4088) n = 4088; api_rread(c, idx, off, n); break; }
    case W_RWRITE: { idx = picktag(false); if(idx < 0) return; uint32_t sz = M.db[idx].data.size(), off = R(sz), n = 1 + R(std::min<uint32_t>(sz - off, 4000)); if(bad) off += 1 + R(sz); api_rwrite(c, idx, off, bytes(n)); break; }
    case W_RMASK: { idx = picktag(false); if(idx < 0) return; uint32_t sz = M.db[idx].data.size(), off = R(sz), n = 1 + R(std::min<uint32_t>(sz - off, 2000)); if(bad) off += 1 + R(sz); api_rmask(c, idx, off, bytes(n), bytes(n)); break; }
    case W_ATOMIC: { idx = picktag(); if(idx < 0) return; tag_handle h = handle(idx, P(0.2)); int o = 1 + R(9); bool real = h.type == DAX_REAL || h.type == DAX_LREAL; if(real) o = 1 + R(2); if(o <= 2 && !bad) { h.count = 1; h.size = hsize(h.type, h.bit, 1); if(h.type == DAX_BOOL) o = 3 + R(7); } if(h.type & DAX_CUSTOM) if(!bad) return; Bytes d = data(h); if(bad && P(0.3)) o = 10 + R(5); if(bad && P(0.2)) h.index = badidx(); if(h.type == DAX_BOOL) h.size = boolbytes(h.bit, h.count); api_atomic(c, h, d, o); break; }
    case W_ADD: {
        std::string n = names[R(names.size())]; uint32_t ty = types.empty() ? basetypes[R(16)] : types[R(types.size())]; int cnt = 1 + R(maxcount); uint32_t at = addattr;
        if(p_bigcount > 0 && P(p_bigcount)) { cnt = 500 + R(3000); if(ty == DAX_BOOL) cnt = 16000 + R(60000); }
        int e = M.find(n); if(e >= 0 && P(0.6)) { ty = M.db[e].type; if(P(0.5)) cnt = M.db[e].count + R(12); }
        if(owned && P(0.4)) at |= R(2) ? 0x21 : 0x20; if(retain && P(0.5)) at = TAG_ATTR_RETAIN;
        if(queues && P(0.3)) { static const uint32_t qt[] = {DAX_INT, DAX_DINT, DAX_BYTE, DAX_LREAL}; ty = DAX_QUEUE | qt[R(4)]; cnt = 1 + R(6); at = 0; }
        if(bad) switch(R(6)) { case 0: n = "_sys" + n; break; case 1: n = "1" + n; break; case 2: n = n + "-x"; break; case 3: ty = 0x7F; break; case 4: cnt = 0; break; case 5: ty = DAX_CUSTOM | 5000; break; }
        api_add(c, n, ty, cnt, at); break; }
    case W_DEL: { idx = picktag(true, queues && P(0.3)); if(bad) idx = P(0.5) ? badidx() : (int)R(11); if(idx < 0) return; api_del(c, idx); break; }
    case W_LOOKUP: { if(P(0.5)) { std::string n = names[R(names.size())]; if(bad) n = "nosuch" + n; if(P(0.1)) n = std::vector<std::string>{"_tagcount", "_lastindex", "_time", "_mnone"}[R(4)]; api_byname(c, n); } else { idx = bad ? badidx() : (int)R(M.db.size()); api_byindex(c, idx); } break; }
    case W_EADD: {
        if((int)events.size() >= maxevents) { if(events.empty()) return; op(W_EDEL); return; }
        idx = events_on_system && P(0.15) ? std::vector<int>{0, 1, 2, 3, 6, 7, 8}[R(7)] : picktag(true, queues && P(0.2), true); if(idx < 0) return; tag_handle h = handle(idx, P(0.2)); int e = et[R(9)]; if(!bad) { if(M.db[idx].queue) e = EVENT_WRITE; else if(h.type == DAX_BOOL) { if(e >= EVENT_EQUAL && e <= EVENT_DEADBAND) e = P(0.5) ? EVENT_SET : EVENT_RESET; } else { if(e == EVENT_SET || e == EVENT_RESET) e = EVENT_CHANGE; if((h.type & DAX_CUSTOM) && e >= EVENT_EQUAL && e <= EVENT_DEADBAND) e = EVENT_CHANGE; if(e == EVENT_EQUAL && (h.type == DAX_REAL || h.type == DAX_LREAL)) e = EVENT_GREATER; } }
        tag_handle one = h; one.count = 1; one.size = hsize(h.type, h.bit, 1); Bytes d = data(h.type & (DAX_CUSTOM | DAX_QUEUE) ? H(0, 0, 0, 1, 8, DAX_LINT) : one); d.resize(16, 0); dax_id id; if(bad && P(0.3)) h.index = badidx();
        if(idx >= 2 && idx <= 5) e = EVENT_WRITE; // (the published attribute bits are not modelled)
        int r = api_event_add(c, h, e, d, &id); if(r >= 0) { events.push_back(id); if(P(0.6)) api_event_opt(c, id, EVENT_OPT_SEND_DATA); } break; }
    case W_EDEL: { dax_id id; if(events.empty() || bad) { std::vector<dax_id> all; for(int i = 0; i < (int)M.db.size(); i++) for(auto &e : M.db[i].events) all.push_back({i, e.id}); if(all.empty()) return; id = all[R(all.size())]; if(P(0.3)) id.id += 1000; api_event_del(c, id); break; } size_t i = R(events.size()); id = events[i]; events.erase(events.begin() + i); api_event_del(c, id); break; }
    case W_EOPT: { if(events.empty()) return; dax_id id = events[R(events.size())]; if(bad) id.id += 1000; api_event_opt(c, id, R(2)); break; }
    case W_MADD: {
        if((int)maps.size() >= maxmaps) { op(W_MDEL); return; }
        int a = picktag(true, false, true), b = picktag(); if(a < 0 || b < 0 || a == b) return;
        if(nomap_overlap) { // one map per destination, sources are never destinations: no chains
            for(int i = 0; i < (int)M.db.size(); i++) for(auto &m : M.db[i].maps) { if(m.dst.index == b || i == b || m.dst.index == a) return; } }
        tag_handle s = handle(a, P(0.2)), d = handle(b, P(0.2)); uint32_t sb = s.type == DAX_BOOL ? s.count : s.size * 8, dbb = d.type == DAX_BOOL ? d.count : d.size * 8;
        if(!bad && sb > dbb) { if(s.type == DAX_BOOL) { s.count = std::min(s.count, dbb); s.size = boolbytes(s.bit, s.count); } else { uint32_t ts = M.typesize(s.type), n = dbb / 8 / ts; if(!n) return; s.count = std::min(s.count, n); s.size = s.count * ts; } }
        if(bad && P(0.4)) { if(P(0.5)) s.index = badidx(); else d.index = P(0.5) ? badidx() : (int)R(9); }
        dax_id id; int r = api_map_add(c, s, d, &id); if(r >= 0) maps.push_back(id); break; }
    case W_MDEL: { if(maps.empty()) return; size_t i = R(maps.size()); dax_id id = maps[i]; if(bad) id.id += 77; else maps.erase(maps.begin() + i); api_map_del(c, id); break; }
    case W_MGET: { if(maps.empty()) return; dax_id id = maps[R(maps.size())]; if(bad) id.id += 77; api_map_get(c, id); break; }
    case W_GADD: { if((int)groups.size() >= maxgroups) { op(W_GDEL); return; } std::vector<tag_handle> m; int n = 1 + R(6); uint32_t s = 0; for(int i = 0; i < n; i++) { int t = picktag(true, false, P(0.5)); if(t < 0) return; tag_handle h = handle(t, P(0.2)); if(s + h.size > 4000) break; s += h.size; m.push_back(h); } if(m.empty()) return; if(bad) { m[R(m.size())].index = badidx(); } tag_group_id *g = api_group_add(c, m); if(g) groups.push_back({g, m, s}); break; }
    case W_GDEL: { if(groups.empty()) return; size_t i = R(groups.size()); tag_group_id *g = groups[i].id; groups.erase(groups.begin() + i); api_group_del(c, g); break; }
    case W_GREAD: { if(groups.empty()) { op(W_GADD); return; } auto &g = groups[R(groups.size())]; api_group_read(c, g.id, g.m); break; }
    case W_GWRITE: { if(groups.empty()) { op(W_GADD); return; } auto g = groups[R(groups.size())]; if(usable) for(auto &h : g.m) if(h.index >= 0 && h.index < (int)M.db.size() && M.db[h.index].exists && !usable(h.index)) return; Bytes d; for(auto &h : g.m) { Bytes x = data(h); d.insert(d.end(), x.begin(), x.end()); } api_group_write(c, g.id, g.m, d); break; }
    case W_OADD: { idx = picktag(); if(idx < 0) return; tag_handle h = handle(idx, P(0.2)); if(h.size > 2000) return; Bytes d = data(h); if(bad) h.index = badidx(); api_oadd(c, h, d); break; }
    case W_ODEL: case W_OGET: { idx = picktag(); if(idx < 0) return; tag_handle h = handle(idx, P(0.2)); if(h.size > 2000) return; if(k == W_ODEL && P(0.4)) { MTag &t = M.db[idx]; h = H(idx, 0, 0, t.count, hsize(t.type, 0, t.count), t.type); if(t.type == DAX_BOOL && t.count > 64) h.count = 64, h.size = 8; if(h.size > 2000) return; } if(bad) h.index = badidx(); if(k == W_ODEL) api_odel(c, h); else api_oget(c, h); break; }
    case W_OSET: case W_OCLR: { idx = picktag(); if(idx < 0) return; tag_handle h = handle(idx); if(bad) h.index = badidx(); api_oset(c, h, k == W_OSET); break; }
    case W_QWRITE: { idx = picktag(true, true); if(idx < 0) return; tag_handle h = handle(idx); Bytes d = data(h); if(bad && h.size > 1) { h.size--; d.pop_back(); h.type = DAX_BYTE; h.count = h.size; } api_write(c, h, d); break; }
    case W_QREAD: { idx = picktag(true, true, true); if(idx < 0) return; tag_handle h = handle(idx); if(bad && h.size > 1) { h.size--; h.type = DAX_BYTE; h.count = h.size; } api_read(c, h); break; }
    case W_SYSREAD: { static const char *n[] = {"_tagcount", "_lastindex", "_tag_added", "_tag_deleted", "_dbsize", "_lastmodule", "_overrides_installed", "_overrides_set", "_my_tagname", "_time", "_starttime"}; int i = M.find(n[R(11)]); if(i < 0) return; api_rread(c, i, 0, M.db[i].data.size()); break; }
    case W_SYSWRITE: { // nothing may change system tags or module tags of others
        int i = P(0.6) ? (int)R(11) : -1; if(i < 0) { std::vector<int> v; for(int x = 0; x < (int)M.db.size(); x++) if(M.db[x].exists && M.db[x].special) v.push_back(x); if(v.empty()) return; i = v[R(v.size())]; }
        uint32_t sz = M.db[i].data.size(), off = P(0.5) ? 0 : R(sz), n = P(0.5) ? sz - off : 1 + R(sz - off); uint32_t ty = M.db[i].type; tag_handle h = H(i, off, 0, n, n, DAX_BYTE); (void)ty;
        switch(R(7)) { case 0: api_rwrite(c, i, off, bytes(n)); break; case 1: api_rmask(c, i, off, bytes(n), bytes(n)); break; case 2: api_atomic(c, h, bytes(n), 3 + R(7)); break; case 3: api_del(c, i); break;
            case 4: { int s = picktag(false, false, true); if(s < 0 || M.db[i].special) return; uint32_t q = std::min<uint32_t>(M.db[s].data.size(), n); dax_id id; api_map_add(c, H(s, 0, 0, q, q, DAX_BYTE), H(i, off, 0, q, q, DAX_BYTE), &id); break; }
            case 5: { tag_group_id *g = api_group_add(c, {h}); if(!g) return; if(!M.db[i].virt) api_group_write(c, g, {h}, bytes(n)); api_group_del(c, g); break; }
            case 6: { std::string n2 = M.db[i].name; if(M.db[i].wildname) return; api_add(c, n2, M.db[i].type, M.db[i].count + R(3), R(2) ? 0x21 : 0); break; } }
        break; }
    case W_MODTAG: { MModule &m = M.mods[c->wire]; if(!m.reg || m.tagidx < 0) return; uint32_t off = 12 + R(66), n = 1 + R(78 - off); api_rwrite(c, m.tagidx, off, bytes(n)); break; }
    case W_SLEEP: sleep_us(1 + R(3000)); break;
    case W_BIG: { // bigger than one message
        std::vector<int> v; for(int i = 0; i < (int)M.db.size(); i++) if(M.db[i].exists && M.db[i].name[0] != '_' && !M.db[i].queue && M.db[i].data.size() > (M.db[i].type == DAX_BOOL ? 2044u : 4088u) && (!usable || usable(i))) v.push_back(i); if(v.empty()) return; idx = v[R(v.size())]; MTag &t = M.db[idx]; uint32_t n = t.count - R(t.count / 8), f = R(t.count - n + 1); tag_handle h;
        if(t.type == DAX_BOOL) { if(P(0.7)) f = R(std::min<uint32_t>(9, t.count - n + 1)); h = H(idx, f / 8, f % 8, n, boolbytes(f % 8, n), DAX_BOOL); } else { uint32_t ts = M.typesize(t.type); h = H(idx, f * ts, 0, n, n * ts, t.type); }
        if(P(0.5)) api_read(c, h); else { Bytes d = data(h); if(P(0.5)) for(auto &x : d) x = R(256); api_write(c, h, d); } break; }
    default: break;
    }
}
int wait_clients(std::vector<Client *> cs, usec limit, const char *what) {
    bool ok = wait_until([cs] { for(auto c : cs) if(!c->proc->main->done && c->proc->alive) return false; return true; }, limit, what);
    if(!ok) { for(auto c : cs) if(!c->proc->main->done && c->proc->alive) violation("[no-progress] client %d (%s) did not finish in %lld s of simulated time: %s blocked in %s", c->id, c->name.c_str(), (long long)limit / 1000000, what, c->proc->main->why); }
    return 0;
}
Client *run_client(int id, const std::string &name, std::function<void(Client *)> fn) {
    return spawn_client(id, name, [fn](Client *c) { int r = c->connect(20000); if(r) violation("[connect] client %d could not connect: %d", c->id, r); fn(c); r = dax_disconnect(c->ds); if(r) violation("[disconnect] client %d: dax_disconnect returned %d", c->id, r); dax_free(c->ds); });
}
