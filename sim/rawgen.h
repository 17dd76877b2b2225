// Generator of well-formed requests sent by hand-made connections (pipelined, split, merged), checked by the model.
#pragma once
#include "api.h"
struct RawGen {
    int stream; bool reg = false; double p_bad = 0.05; std::vector<std::string> names; double p_big = 0.1; bool queues = true, events = false, groups = false, maps = false, ovr = false, cdt = true; double w_add = 1;
    uint32_t R(uint32_t n) { return choose(stream, n); } bool P(double p) { return flip(stream, p); }
    Bytes rnd(uint32_t n) { Bytes b(n); int m = R(3); for(auto &x : b) x = m == 0 ? R(256) : m == 1 ? R(2) : 0xff; return b; }
    bool frame(uint32_t &cmd, Bytes &d);
};
struct RawClient { // a process with one raw connection, a reader thread and bookkeeping of what came back
    Proc *p = nullptr; Raw raw; int id = 0; int stream = 0; uint64_t nans = 0; std::deque<uint32_t> sentcmds; bool stop = false, rdone = false, opened = false, finished = false; Fiber *reader = nullptr;
    void start_reader();
    bool send_frames(const std::vector<Bytes> &f, double p_pause, int maxpause_ms); // split at random points
    bool drain(usec limit); // wait until everything sent was answered
    bool reg(const std::string &name);
};
RawClient *spawn_raw(int id, const std::string &name, std::function<void(RawClient *)> fn);
