// dsim: a small deterministic simulator for multi-threaded C++ code.
//
// The code under test is compiled with clang's -fsanitize=thread instrumentation but linked
// against this runtime instead of libtsan: every instrumented memory access, every atomic and
// every interposed synchronisation call is a scheduling point.  Exactly one simulated thread runs
// at any time; which one is decided by a seeded scheduler.  All nondeterminism (schedule, number of
// workers, entropy, clock, allocation failures, I/O faults, generated operations) is drawn from
// four recorded tapes, so a run is a pure function of the tapes and the code.
#ifndef DSIM_HPP
#define DSIM_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>

namespace dsim
{
enum Stream : unsigned { OP = 0, SCHED = 1, FAULT = 2, ENTROPY = 3, NSTREAMS = 4 };

// ---- choices ------------------------------------------------------------------------------
std::uint32_t draw(Stream s, std::uint32_t n); // uniform in [0,n), recorded
inline std::uint32_t pick(std::uint32_t n) { return draw(OP, n); }
inline std::uint32_t range(std::uint32_t lo, std::uint32_t hi) { return lo + draw(OP, hi - lo + 1u); }
inline bool chance(std::uint32_t num, std::uint32_t den) { return draw(OP, den) >= den - num; } // 0 on tape -> false
bool rare(std::uint32_t den); // once in den times, and at most once in a run: for choices that make it much longer
inline std::uint32_t fpick(std::uint32_t n) { return draw(FAULT, n); }
inline bool fchance(std::uint32_t num, std::uint32_t den) { return draw(FAULT, den) >= den - num; }
// a "nice" double: small dyadic rationals so that shrinking gives readable data
inline double real(double lo, double hi)
{
    const std::uint32_t k = draw(OP, 4097u);
    return lo + (hi - lo) * (double(k) / 4096.);
}

// ---- observation --------------------------------------------------------------------------
[[noreturn]] void violation(const char *cls, const std::string &detail);
void event(const char *tag, std::uint64_t a = 0, std::uint64_t b = 0, std::uint64_t c = 0); // hashed + traced
void note(const std::string &text);                                                        // traced only
void probe(const char *name, std::uint64_t n = 1);                                         // rare-condition counters
void fault_fired(const char *name, std::uint64_t n = 1);                                   // injected-fault counters
void nontrivial();                                                                         // this run exercised the property
bool tracing();
std::uint64_t seq();   // global event sequence number (strictly increasing with every scheduling step)
std::uint64_t steps();
inline std::uint64_t bits(double d)
{
    std::uint64_t u;
    std::memcpy(&u, &d, sizeof u);
    return u;
}
#define DSIM_CHECK(cond, cls, msg)                                                                                     \
    do {                                                                                                               \
        if (!(cond)) ::dsim::violation(cls, msg);                                                                      \
    } while (0)

// Suspends scheduling points, race checks and allocation faults on this thread (oracle code).
struct Quiet {
    Quiet();
    ~Quiet();
    Quiet(const Quiet &) = delete;
    Quiet &operator=(const Quiet &) = delete;
};
// Suspends scheduling points only: the region runs to completion unless it blocks. Keeps race detection.
struct Atomic {
    Atomic();
    ~Atomic();
};

// ---- configuration (call before threads exist) ----------------------------------------------
void configure_schedule();              // draws the scheduling strategy from the SCHED tape
void set_workers(unsigned w);           // simulated TBB worker threads available
unsigned workers();
// Asked before a race is reported: true when the two accesses are ordered by uninstrumented code (then everything
// done so far counts as ordered before the current thread).
void set_race_excuse(bool (*f)());
void set_step_cap(std::uint64_t cap);   // exceeding it under a fair schedule is class "no-progress"

// ---- threads ------------------------------------------------------------------------------
// plain std::thread also works (pthread_create is interposed); this helper names and joins them
void run_threads(const std::vector<std::function<void()>> &bodies);
void yield_point();

// ---- faults -------------------------------------------------------------------------------
// The n-th (0-based) operator new from now on (any simulated thread) throws std::bad_alloc.
void arm_alloc_fault(std::uint64_t n, bool sticky = false);
bool disarm_alloc_fault(); // returns true if it fired
struct AllocFaultScope {
    explicit AllocFaultScope(std::uint64_t n, bool sticky = false) { arm_alloc_fault(n, sticky); }
    ~AllocFaultScope() { disarm_alloc_fault(); }
    bool fired() const;
};
std::uint64_t alloc_count();
void arm_entropy_fault(bool on); // std::random_device throws while on
std::uint64_t entropy_draws();

// ---- registration -------------------------------------------------------------------------
struct Scenario {
    const char *property;
    const char *name;
    unsigned weight;
    void (*fn)();
};
struct Register {
    Register(const char *property, const char *name, unsigned weight, void (*fn)());
};
#define DSIM_SCENARIO(prop, name, weight)                                                                              \
    static void scn_##prop##_##name();                                                                                 \
    static ::dsim::Register reg_##prop##_##name(#prop, #name, weight, scn_##prop##_##name);                            \
    static void scn_##prop##_##name()
} // namespace dsim
#endif
