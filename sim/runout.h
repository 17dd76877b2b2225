#pragma once
#include <cstdint>
namespace simi {
enum { RO_STATES = 512, RO_CNT = 64, RO_COV = 1 << 15 };
struct Out {
    int status;            // -1 not finished, 0 ok, 1 violation, 2 memory error/abort, 3 harness error
    char msg[2048];
    uint64_t hash, shash; int64_t steps, edges, sim_us;
    uint64_t faults[64];
    char cname[RO_CNT][32]; uint64_t cval[RO_CNT];
    int nstates; uint64_t states[RO_STATES];
    int nontrivial;
    uint8_t cov[RO_COV];
};
void runner_child_exit();  // dumps replay data if asked, then _exit
void arm_preempt();
}
