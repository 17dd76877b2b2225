// Small executable reference model of the tag server, applied to every request at the moment its answer is sent.
#pragma once
#include "world.h"
typedef std::vector<uint8_t> Bytes;
enum { C_REG = 1, C_ADD, C_DEL, C_GET, C_LIST, C_READ, C_WRITE, C_MWRITE, C_EADD, C_EDEL, C_EGET, C_EOPT, C_CDT, C_CDTGET, C_MADD, C_MDEL, C_MGET,
       C_GADD, C_GDEL, C_GREAD, C_GWRITE, C_GMWRITE, C_ATOMIC, C_OADD, C_ODEL, C_OGET, C_OSET };
struct MEvent { int id = 0; Wire *w = nullptr; uint32_t etype = 0, dt = 0, byte = 0, count = 0, size = 0, opts = 0; uint8_t bit = 0; Bytes data, last; std::vector<bool> flag; };
struct MMap { int id = 0; tag_handle src, dst; };
struct MTag {
    bool exists = false, wildname = false, queue = false, virt = false, special = false; int ever = 0; std::string name; uint32_t type = 0, count = 0, attr = 0; // attr: READONLY|RETAIN|OWNED only
    Bytes data, odata, omask, wild; bool ovr = false, ovrset = false; std::deque<Bytes> q; Wire *owner = nullptr;
    std::vector<MEvent> events; std::vector<MMap> maps; std::set<int> mapids, eventids;
};
struct MMember { std::string name; uint32_t type, count; int byte = 0, bit = 0; };
struct MType { std::string name; std::vector<MMember> m; uint32_t id = 0; uint32_t size = 0; std::string text() const; };
struct MGroup { std::vector<tag_handle> m; uint32_t size = 0; };
struct MModule { bool reg = false; std::string name; int tagidx = -1; std::map<uint32_t, MGroup> groups; };
struct Model {
    std::vector<MTag> db; std::vector<MType> types; std::map<Wire *, MModule> mods;
    std::map<Wire *, std::vector<Ev>> exp, got;
    bool allow_errors = false;         // memory is failing in the server: a request may be refused
    bool check_events = true;
    bool dry = false;                  // only work out what a request would do
    bool ret_unsure = false;           // the disk is failing: whether a tag is retained is not known
    bool maybe = false;                // set while undecided
    uint64_t applied = 0; Bytes prev, prev_omask; // the target tag before the last request
    void reset();                      // a freshly started server without retained tags
    void apply(Wire *w, const Frame &rq, const Frame &rsp); // one answered request
    void gone(Wire *w);                // the server closed the connection
    void settle(const char *what);     // notifications sent since the last step must be the expected ones
    int find(const std::string &name);
    int tagcount(); int ntags() { return (int)db.size(); }
    int typesize(uint32_t type); bool typeok(uint32_t type); uint32_t tagbytes(uint32_t type, uint32_t count);
    uint32_t typebyname(const std::string &s); std::string typestr(uint32_t t);
    Bytes view(int idx, uint32_t off, uint32_t size); // what a read returns
    // effects (also used for API level expectations on copies)
    void wr(Wire *by, int idx, uint32_t off, const uint8_t *d, const uint8_t *mask, uint32_t size, bool maps);
    void ev(int idx, uint32_t off, uint32_t size); void evdel(int idx); void domaps(int idx, uint32_t off, uint32_t size);
    int may_write(Wire *w, int idx, uint32_t off, uint32_t size, bool masked);
    void deltag(int idx); int addtag(const std::string &name, uint32_t type, uint32_t count, uint32_t attr, Wire *w); void unreg(Wire *w);
    void sysw(int idx, const void *d, uint32_t n); void desc(int dest, int idx, uint32_t attr); void dbgrow();
    void fire(int idx, MEvent &e);
    uint64_t digest();
    void check_read(Wire *w, int idx, uint32_t off, uint32_t size, const Bytes &d, const char *what);
};
extern Model M;
void model_attach(); // hooks the model to the wires
bool cmpwild(const Bytes &got, const Bytes &exp, const MTag &t, uint32_t off);
void layout(MType &t);
tag_handle H(int idx, uint32_t byte, uint8_t bit, uint32_t count, uint32_t size, uint32_t type);
uint32_t boolbytes(uint8_t bit, uint32_t count);
void getbits(const uint8_t *src, uint32_t bit, uint32_t n, uint8_t *dst, uint32_t dbit);
bool atomic_exact(uint8_t *d, uint32_t type, uint8_t bit, uint32_t count, uint32_t size, const uint8_t *data, int op); // false: refused
