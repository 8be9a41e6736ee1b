#ifndef DSIM_INTERNAL_HPP
#define DSIM_INTERNAL_HPP
#include <cstdint>
#include <vector>
#include "dsim.hpp"
namespace dsim
{
enum { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_BUDGET = 3 };
constexpr std::uint32_t TAPE_MAX = 1u << 20;
constexpr unsigned NCOUNTERS = 96;
struct Tape {
    std::uint32_t len;
    std::uint32_t v[TAPE_MAX];
};
struct Counter {
    char name[56];
    std::uint64_t n;
};
struct Shared {
    volatile int status;
    int tape_overflow;
    char cls[64];
    char detail[2000];
    char scenario[64];
    std::uint64_t hash, shash, steps, switches, sim_ns, entropy;
    std::uint32_t threads;
    bool nontrivial;
    Counter probes[NCOUNTERS];
    Counter faults[NCOUNTERS];
    Tape tape[NSTREAMS];
};
struct Params {
    bool replay = false;
    int trace_fd = 0;
    const std::uint32_t *in[NSTREAMS] = {};
    std::uint32_t in_len[NSTREAMS] = {};
    std::uint32_t pos[NSTREAMS] = {};
};
extern Shared *g_sh;
extern Params g_params;
[[noreturn]] void child_main(std::uint64_t seed, const char *property);
const Scenario *scenarios(unsigned &n);
} // namespace dsim
#endif
