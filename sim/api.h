// Calls of the real library, each checked against the model; and the operation generator.
#pragma once
#include "model.h"
struct CallInfo { std::vector<std::pair<Frame, Frame>> ans; Bytes exp; Bytes wild; bool ok = false; int r = 0; bool net = false; usec t0 = 0; uint32_t covered = 0; bool exact = true; };
enum { W_READ, W_WRITE, W_MASK, W_RREAD, W_RWRITE, W_RMASK, W_ATOMIC, W_ADD, W_DEL, W_LOOKUP, W_EADD, W_EDEL, W_EOPT, W_MADD, W_MDEL, W_MGET, W_GADD, W_GDEL, W_GREAD, W_GWRITE, W_OADD, W_ODEL, W_OGET, W_OSET, W_OCLR,
       W_QWRITE, W_QREAD, W_SYSREAD, W_BIG, W_CDT, W_SLEEP, W_MODTAG, W_SYSWRITE, W_N };
struct Gen {
    Client *c; double w[W_N] = {0}; double pstop = 0.04; int maxops = 200;
    std::vector<std::string> names; std::vector<uint32_t> types; int maxcount = 12; double p_bad = 0.05; uint32_t addattr = 0; bool own_map_dst = true;
    bool nomap_overlap = true; bool events_on_system = false; bool reals_exact = true; double p_bigcount = 0; bool queues = false; int maxgroups = 6; int maxevents = 30, maxmaps = 6; bool owned = false; bool retain = false;
    struct G { tag_group_id *id; std::vector<tag_handle> m; uint32_t size; }; std::vector<G> groups; std::vector<dax_id> events, maps;
    std::function<bool(int idx)> usable; // which tags this client may change
    Gen(Client *c) : c(c) {}
    bool step();           // one operation; false = stop
    void run() { int n = 0; while(n++ < maxops && more(c->stream, pstop)) if(!step()) break; }
    int picktag(bool real_ok = true, bool queue = false, bool any = false); // index of a tag or -1
    tag_handle handle(int idx, bool bitview = false); Bytes data(const tag_handle &h); Bytes bytes(uint32_t n);
    void op(int k);
    uint32_t R(uint32_t n) { return choose(c->stream, n); } bool P(double p) { return flip(c->stream, p); }
};
extern bool net_errors_ok; extern std::function<void(Client *, const char *, int, usec)> on_api_result; // a library call has returned, when it was made // calls may fail because of the network, the server's end or time limits
bool is_net_error(int r);
CallInfo api(Client *c, const char *what, uint32_t maincmd, std::function<int()> f, std::function<void(CallInfo &, Wire *, const Frame &, const Frame &)> at = nullptr, bool cache_ok = false);
int api_read(Client *c, tag_handle h, Bytes *out = nullptr); int api_write(Client *c, tag_handle h, const Bytes &d); int api_mask(Client *c, tag_handle h, const Bytes &d, const Bytes &m);
int api_rread(Client *c, int idx, uint32_t off, uint32_t n, Bytes *out = nullptr); int api_rwrite(Client *c, int idx, uint32_t off, const Bytes &d); int api_rmask(Client *c, int idx, uint32_t off, const Bytes &d, const Bytes &m);
int api_atomic(Client *c, tag_handle h, const Bytes &d, int op);
int api_add(Client *c, const std::string &name, uint32_t type, int count, uint32_t attr, tag_handle *out = nullptr); int api_del(Client *c, int idx);
int api_byname(Client *c, const std::string &name, dax_tag *out = nullptr); int api_byindex(Client *c, int idx, dax_tag *out = nullptr);
int api_event_add(Client *c, tag_handle h, int et, const Bytes &data, dax_id *id, void (*cb)(dax_state *, void *) = nullptr, void *ud = nullptr); int api_event_del(Client *c, dax_id id); int api_event_opt(Client *c, dax_id id, uint32_t o);
int api_map_add(Client *c, tag_handle s, tag_handle d, dax_id *id); int api_map_del(Client *c, dax_id id); int api_map_get(Client *c, dax_id id);
tag_group_id *api_group_add(Client *c, std::vector<tag_handle> m); int api_group_del(Client *c, tag_group_id *g); int api_group_read(Client *c, tag_group_id *g, const std::vector<tag_handle> &m); int api_group_write(Client *c, tag_group_id *g, const std::vector<tag_handle> &m, const Bytes &d);
int api_oadd(Client *c, tag_handle h, const Bytes &d); int api_odel(Client *c, tag_handle h); int api_oget(Client *c, tag_handle h); int api_oset(Client *c, tag_handle h, bool on);
uint32_t api_cdt(Client *c, const std::string &name, const std::vector<MMember> &m, int *result = nullptr); // 0 if refused
uint32_t hsize(uint32_t type, uint8_t bit, uint32_t count);
int wait_clients(std::vector<Client *> cs, usec limit, const char *what);
Client *run_client(int id, const std::string &name, std::function<void(Client *)> fn); // spawn; connects itself
