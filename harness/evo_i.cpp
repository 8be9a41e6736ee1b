// C08: islands of an archipelago evolving at the same time (pagmo's thread islands on simulated threads)
#include "evo.hpp"
#include <dlfcn.h>
#include <unwind.h>

#include <pagmo/archipelago.hpp>
#include <pagmo/island.hpp>
#include <pagmo/islands/thread_island.hpp>
#include <pagmo/rng.hpp>
#include <pagmo/topologies/fully_connected.hpp>
#include <pagmo/topologies/ring.hpp>

namespace
{
pagmo::algorithm make_algo(const Cfg &c)
{
    return with_algo(c, [](const auto &a) { return pagmo::algorithm(a); });
}
// An island hands its population and algorithm around in shared pointers whose counters are touched only by the
// (uninstrumented) pagmo library: the last owner destroys the problem after everybody else has let go of it.
_Unwind_Reason_Code frame(struct _Unwind_Context *c, void *found)
{
    Dl_info i;
    const auto pc = reinterpret_cast<void *>(_Unwind_GetIP(c) - 1);
    if (dladdr(pc, &i) && i.dli_sname
        && (std::strstr(i.dli_sname, "prob_inner") || std::strstr(i.dli_sname, "algo_inner"))
        && std::strstr(i.dli_sname, "D0Ev")) {
        *static_cast<bool *>(found) = true;
        return _URC_END_OF_STACK;
    }
    return _URC_NO_REASON;
}
bool in_destructor()
{
    bool f = false;
    _Unwind_Backtrace(frame, &f);
    return f;
}
std::string image(const pagmo::population &p)
{
    return hc::dump(p, false);
}
struct Isle {
    Cfg c;
    PRef q;
    std::vector<unsigned> tasks; // steps of each task
    std::vector<std::string> pops, algos; // every state the island passes through
    int err = 0;                          // of the first task that failed
    std::string str() const { return c.str() + " [" + q.str() + "]"; }
};
int kind_of_error(const std::exception_ptr &e)
{
    Out o;
    guarded(o, [&] { std::rethrow_exception(e); });
    return o.err;
}
void check_seen(const Isle &i, const pagmo::population &p, const std::string &what)
{
    dsim::Quiet quiet;
    DSIM_CHECK(std::count(i.pops.begin(), i.pops.end(), image(p)) > 0, "island-differs",
               i.str() + ": " + what + " is no state of the island evolving alone: " + hc::str(p.get_f()[0]));
}
void check_seen(const Isle &i, const pagmo::algorithm &a, const std::string &what)
{
    dsim::Quiet quiet;
    DSIM_CHECK(std::count(i.algos.begin(), i.algos.end(), hc::dump(a, false)) > 0, "island-differs",
               i.str() + ": " + what + " is no state of the island evolving alone");
}
void islands(bool failing)
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 2));
    dsim::set_race_excuse(in_destructor);
    pagmo::random_device::set_seed(pick(1000));
    const unsigned T = range(2, 3);
    const bool alike = chance(1, 3); // the same problem and algorithm on every island
    std::vector<Isle> is(T);
    std::vector<pagmo::algorithm> as;
    std::vector<pagmo::population> ps;
    for (unsigned i = 0; i < T; ++i) {
        Isle &s = is[i];
        if (i && alike) {
            s.c = is[0].c;
            s.q = is[0].q;
        } else {
            s.c = rnd_cfg(int(pick(5)), 2);
            s.c.verb = 0; // the standard output is shared
            if (s.c.batch() && chance(1, 3)) s.c.bfe = THREAD_BFE;
            s.q = rnd_problem(s.c, failing && chance(1, 2) ? 2 : pick(2));
            if (failing) s.q.r.limit = double(range(2, 30));
            if (!failing && chance(1, 4)) {
                s.q.r.has_pc = true;
                s.q.pclevel = failing ? int(pick(3)) : 1;
            }
        }
        for (unsigned k = 0, n = range(1, 2); k < n; ++k) s.tasks.push_back(range(1, 2));
        as.push_back(make_algo(s.c));
        const unsigned np = range(2, 4), seed = pick(1000);
        try {
            dsim::Quiet quiet;
            if (i && alike && chance(1, 2)) ps.push_back(ps[0]);
            else ps.push_back(pagmo::population(pagmo::problem(s.q.build()), np, seed));
        } catch (const bad_point &) {
            return;
        }
        // the island alone
        dsim::Quiet quiet;
        pagmo::population p(ps[i]);
        pagmo::algorithm a(as[i]);
        s.pops.push_back(image(p));
        s.algos.push_back(hc::dump(a, false));
        for (unsigned n : s.tasks)
            for (unsigned k = 0; k < n; ++k) {
                int err = 0;
                pagmo::algorithm b(a);
                if (s.q.level() == 0) err = 2;
                else {
                    try {
                        p = b.evolve(p);
                    } catch (...) {
                        err = kind_of_error(std::current_exception());
                    }
                }
                if (err) {
                    if (!s.err) s.err = err;
                    break;
                }
                a = b;
                s.pops.push_back(image(p));
                s.algos.push_back(hc::dump(a, false));
            }
    }
    pagmo::archipelago arch;
    for (unsigned i = 0; i < T; ++i) arch.push_back(pagmo::island(pagmo::thread_island{}, as[i], ps[i]));
    // the tasks are queued while the islands work
    std::vector<std::pair<unsigned, unsigned>> todo;
    for (unsigned k = 0; k < 2; ++k)
        for (unsigned i = 0; i < T; ++i)
            if (k < is[i].tasks.size()) todo.emplace_back(i, is[i].tasks[k]);
    auto look = [&](const pagmo::archipelago &ar, const std::string &what) {
        for (unsigned i = 0; i < T; ++i) {
            check_seen(is[i], ar[i].get_population(), what);
            check_seen(is[i], ar[i].get_algorithm(), what);
        }
    };
    auto watch = [&] {
        const unsigned i = pick(T);
        switch (pick(7)) {
            case 0: check_seen(is[i], arch[i].get_population(), "the population read meanwhile"); break;
            case 1: check_seen(is[i], arch[i].get_algorithm(), "the algorithm read meanwhile"); break;
            case 2: {
                const pagmo::archipelago b(arch);
                look(b, "a copy made meanwhile");
                break;
            }
            case 3: {
                std::stringstream ss;
                {
                    boost::archive::binary_oarchive oa(ss);
                    oa << arch[i];
                }
                pagmo::island b;
                {
                    boost::archive::binary_iarchive ia(ss);
                    ia >> b;
                }
                check_seen(is[i], b.get_population(), "what was saved meanwhile");
                break;
            }
            case 4: {
                const pagmo::population p = arch[i].get_population();
                const auto f = p.get_problem().fitness(p.get_x()[0]);
                DSIM_CHECK(hc::same(f, p.get_f()[0]) || !std::isfinite(f[0]), "island-differs",
                           is[i].str() + ": the fitness of a vector read meanwhile is " + hc::str(f) + " not " + hc::str(p.get_f()[0]));
                break;
            }
            case 5: arch[i].status(); break;
            default: dcgp::random_device::next();
        }
        dsim::probe("watched");
    };
    for (auto &t : todo) {
        arch[t.first].evolve(t.second);
        for (unsigned k = 0, n = pick(3); k < n; ++k) watch();
    }
    for (unsigned k = 0, n = pick(3); k < n; ++k) watch();
    int err = 0, want = 0;
    for (auto &s : is)
        if (!want) want = s.err;
    try {
        arch.wait_check();
    } catch (...) {
        err = kind_of_error(std::current_exception());
    }
    std::string all;
    for (auto &s : is) all += s.str() + "; ";
    if (want == 3) {
        DSIM_CHECK(err == 3, "lost-error", all + "the failure of an island was reported as " + std::to_string(err));
        dsim::fault_fired("failed-evaluation");
    } else
        DSIM_CHECK((err != 0) == (want != 0), "lost-error",
                   all + "an error was " + (want ? "expected" : "not expected") + " and " + std::to_string(err) + " reported");
    if (want == 2) dsim::probe("island-refused");
    for (unsigned i = 0; i < T; ++i) {
        dsim::Quiet quiet;
        const auto p = arch[i].get_population();
        DSIM_CHECK(image(p) == is[i].pops.back(), "island-differs", is[i].str() + ": the final population differs from that of the island alone");
        DSIM_CHECK(hc::dump(arch[i].get_algorithm(), false) == is[i].algos.back(), "island-differs",
                   is[i].str() + ": the final algorithm differs from that of the island alone");
        dsim::event("island", dsim::bits(p.get_f()[0][0]), p.get_problem().get_fevals());
    }
    dsim::nontrivial();
}
bool finite(const pagmo::population &p)
{
    for (auto &f : p.get_f())
        for (double v : f)
            if (!std::isfinite(v)) return false;
    return true;
}
// islands that exchange individuals: whatever the timing, what they hold is true
void migration()
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 2));
    dsim::set_race_excuse(in_destructor);
    pagmo::random_device::set_seed(pick(1000));
    const unsigned T = range(2, 3);
    const bool multi = chance(1, 3);
    std::vector<Cfg> cs;
    for (unsigned i = 0; i < T; ++i) {
        cs.push_back(rnd_cfg(multi ? (chance(1, 2) ? MOES : MOMES) : (chance(1, 3) ? GD : chance(1, 2) ? ES : MES), 2));
        cs.back().verb = 0;
    }
    Cfg any = cs[0];
    for (auto &c : cs)
        if (c.kind == GD) any.kind = GD; // needs constants
    PRef q = rnd_problem(any, 1);
    q.multi = multi;
    pagmo::archipelago arch = chance(1, 2) ? pagmo::archipelago(pagmo::ring(1.)) : pagmo::archipelago(pagmo::fully_connected(1.));
    if (chance(1, 2)) arch.set_migration_type(pagmo::migration_type::broadcast);
    if (chance(1, 2)) arch.set_migrant_handling(pagmo::migrant_handling::evict);
    std::vector<double> best;
    std::vector<unsigned> size;
    for (unsigned i = 0; i < T; ++i) {
        pagmo::population p(pagmo::problem(q.build()), range(2, 4), pick(1000));
        if (!finite(p)) return;
        double b = p.get_f()[0][0];
        for (auto &f : p.get_f()) b = std::min(b, f[0]);
        best.push_back(b);
        size.push_back(unsigned(p.size()));
        arch.push_back(pagmo::island(pagmo::thread_island{}, make_algo(cs[i]), p));
    }
    for (unsigned k = 0, n = range(1, 2); k < n; ++k) {
        arch.evolve(range(1, 2));
        if (chance(1, 2)) {
            const pagmo::archipelago b(arch);
            DSIM_CHECK(b.size() == T, "island-differs", "size of a copy");
        }
    }
    arch.wait_check();
    std::string w = "[" + q.str() + "]";
    for (auto &c : cs) w += " " + c.str() + ";";
    dsim::Quiet quiet;
    const pagmo::problem fresh(q.build());
    auto truth = [&](const vd &x, const vd &f, const std::string &what) {
        DSIM_CHECK(x.size() == q.r.neph + q.r.lb.size(), "untrue-individual", w + what + ": length");
        for (std::size_t g = 0; g < q.r.lb.size(); ++g) {
            const double v = x[q.r.neph + g];
            DSIM_CHECK(v == std::floor(v) && v >= q.r.lb[g] && v <= q.r.ub[g], "untrue-individual", w + what + ": " + hc::str(x));
        }
        double mag = 0;
        q.fitness(x, &mag);
        const vd t = fresh.fitness(x);
        if (!(mag < 1e6)) return;
        for (std::size_t k = 0; k < t.size(); ++k)
            DSIM_CHECK(hc::close(t[k], f[k], 1e-7), "untrue-individual",
                       w + what + " " + hc::str(x) + " is stored with " + hc::str(f) + " but has " + hc::str(t));
    };
    for (unsigned i = 0; i < T; ++i) {
        const auto p = arch[i].get_population();
        DSIM_CHECK(p.size() == size[i], "untrue-individual", w + "population size");
        double b = INFINITY;
        for (std::size_t k = 0; k < p.size(); ++k) {
            truth(p.get_x()[k], p.get_f()[k], "an individual of island " + std::to_string(i));
            b = std::min(b, p.get_f()[k][0]);
        }
        if (!multi) DSIM_CHECK(b <= best[i], "best-lost", w + "island " + std::to_string(i) + " had " + hc::str(best[i]) + " and has " + hc::str(b));
        dsim::event("island", dsim::bits(b), p.get_problem().get_fevals());
    }
    for (auto &e : arch.get_migration_log()) {
        truth(std::get<2>(e), std::get<3>(e), "a migrant");
        dsim::probe("migrants");
    }
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(C08, islands, 3) { islands(false); }
DSIM_SCENARIO(C08, failing_islands, 2) { islands(true); }
DSIM_SCENARIO(C08, migration, 2) { migration(); }
