#include "rawgen.h"
#include <algorithm>
static const uint32_t rt[] = {DAX_INT, DAX_BOOL, DAX_DINT, DAX_BYTE, DAX_LINT, DAX_UDINT, DAX_SINT, DAX_UINT};
bool RawGen::frame(uint32_t &cmd, Bytes &d) {
    std::vector<int> v, q; for(int i = 0; i < (int)M.db.size(); i++) { MTag &t = M.db[i]; if(!t.exists || t.name[0] == '_') continue; (t.queue ? q : v).push_back(i); }
    bool bad = P(p_bad); int k = R(16); int idx = v.empty() ? -1 : v[R(v.size())]; B b;
    if(idx < 0 || P(0.04 * w_add)) k = 0; if(k == 0 && v.size() > 12) k = 1; if(idx < 0) k = 0;
    MTag *t = idx >= 0 ? &M.db[idx] : nullptr; uint32_t sz = t ? t->data.size() : 0, off = sz ? R(sz) : 0, n = sz ? 1 + R(std::min<uint32_t>(sz - off, 4000)) : 0; if(sz && P(0.3)) { off = 0; n = std::min<uint32_t>(sz, 4000); } if(bad) off += sz;
    switch(k) {
    case 0: { cmd = C_ADD; uint32_t ty = rt[R(8)], c = P(p_big) ? 500 + R(3000) : 1 + R(20); if(queues && P(0.3)) { ty = DAX_QUEUE | DAX_INT; c = 1 + R(4); } std::string nm = names[R(names.size())]; int e = M.find(nm); if(e >= 0 && P(0.7)) ty = M.db[e].type; b.u32(ty).u32(c).u32(0).str(bad ? "-" + nm : nm); break; }
    case 1: case 2: case 3: cmd = C_READ; b.u32(idx).u32(off).u32(n); break;
    case 4: case 5: case 6: case 7: cmd = C_WRITE; b.u32(idx).u32(off).vec(rnd(n)); break;
    case 8: case 9: cmd = C_MWRITE; n = std::min<uint32_t>(n, 2000); b.u32(idx).u32(off).vec(rnd(n)).vec(rnd(n)); break;
    case 10: case 11: { uint32_t ty = t->type; if(ty == DAX_BOOL) { cmd = C_READ; b.u32(idx).u32(0).u32(1); break; } uint32_t ts = M.typesize(ty), e = R(t->count); cmd = C_ATOMIC; b.u32(idx).u32(e * ts).u32(1).u32(ty).u8(0).u16(1 + R(2)).u16(0).vec(rnd(ts)); break; }
    case 12: cmd = C_GET; if(P(0.5)) b.u8(1).str(bad ? "none" : t->name); else b.u8(2).u32(bad ? 99999 : idx); break;
    case 13: case 14: { if(q.empty()) { cmd = C_READ; b.u32(idx).u32(off).u32(n); break; } int x = q[R(q.size())]; uint32_t s = M.tagbytes(M.db[x].type, M.db[x].count); if(k == 13) { cmd = C_WRITE; b.u32(x).u32(0).vec(rnd(s)); } else { cmd = C_READ; b.u32(x).u32(0).u32(s); } break; }
    case 15: if(cdt) { cmd = C_CDTGET; if(P(0.5)) b.u8(1).str(P(0.5) ? "_module" : "_tag_desc"); else b.u8(2).u32(DAX_CUSTOM | R(3)); } else { cmd = C_READ; b.u32(idx).u32(off).u32(n); } break;
    }
    d = b.v; return true;
}
RawClient *spawn_raw(int id, const std::string &name, std::function<void(RawClient *)> fn) {
    RawClient *c = new RawClient; c->id = id; c->stream = ST_ACTOR0 + id;
    c->p = spawn(name, [c, fn] { cur->proc->noeintr = true; if(!c->raw.open()) violation("[connect] a raw connection was refused"); c->opened = true; fn(c); c->finished = true; });
    return c;
}
void RawClient::start_reader() {
    RawClient *c = this;
    reader = thread(cur->proc, "reader", [c] {
        for(;;) { Frame f; if(c->raw.recv(f, 100000)) { if(c->sentcmds.empty()) violation("[extra-answer] raw client %d received an answer it did not ask for", c->id); uint32_t e = c->sentcmds.front(); c->sentcmds.pop_front(); if((f.cmd & 0xffffff) != e) violation("[wrong-answer] raw client %d received an answer for command 0x%x, expected 0x%x", c->id, f.cmd, e); c->nans++; }
            else if(c->raw.closed || c->stop) break; }
        c->rdone = true; });
}
bool RawClient::send_frames(const std::vector<Bytes> &fs, double p_pause, int maxpause_ms) {
    Bytes all; for(auto &f : fs) { uint32_t cmd = (f[4] << 24) | (f[5] << 16) | (f[6] << 8) | f[7]; sentcmds.push_back(cmd); all.insert(all.end(), f.begin(), f.end()); }
    size_t i = 0;
    while(i < all.size()) {
        size_t left = all.size() - i, n;
        switch(choose(stream, 5)) { case 0: n = left; break; case 1: n = 1 + choose(stream, 7); break; case 2: n = 1 + choose(stream, 40); break; case 3: n = 1 + choose(stream, 600); break; default: n = 1 + choose(stream, 5000); }
        if(n > left) n = left;
        raw.send(&all[i], n); i += n; if(raw.closed) return false;
        fired(F_SEGMENT);
        if(i < all.size() && flip(stream, p_pause)) sleep_us(1 + choose(stream, maxpause_ms * 1000));
    }
    return true;
}
bool RawClient::drain(usec limit) { RawClient *c = this; return wait_until([c] { return c->sentcmds.empty() || c->raw.closed; }, limit, "answers") && sentcmds.empty(); }
bool RawClient::reg(const std::string &name) { B b; b.be32(1000).be32(1).str(name); sentcmds.push_back(C_REG); raw.request(C_REG, b.v, nullptr); return drain(20 * 1000000LL); }
