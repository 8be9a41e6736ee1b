// Shared by the evolution harnesses: configurations, batch evaluators under the simulator, and comparable results.
#ifndef HARNESS_EVO_HPP
#define HARNESS_EVO_HPP
#include "prob.hpp"
#include <atomic>
#include <optional>
#include <pagmo/algorithm.hpp>
#include <pagmo/batch_evaluators/default_bfe.hpp>
#include <pagmo/batch_evaluators/thread_bfe.hpp>
#include <pagmo/bfe.hpp>
#include <pagmo/population.hpp>
#include <pagmo/utils/multi_objective.hpp>

#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>

namespace hx
{
enum Kind { ES, MES, MOES, MOMES, GD };
inline const char *kind_name(int k)
{
    static const char *n[] = {"es4cgp", "mes4cgp", "moes4cgp", "momes4cgp", "gd4cgp"};
    return n[k];
}
// ---- batch evaluators -----------------------------------------------------------------------------
struct Batch {
    vd dvs, fs;
};
struct Recorder {
    std::vector<Batch> batches;
    bool on = false;
};
inline Recorder &recorder()
{
    static Recorder r;
    return r;
}
struct eval_failure : std::runtime_error {
    eval_failure() : std::runtime_error("evaluation failed") {}
};
// Evaluates the candidates one by one in a drawn order; may fail at the n-th evaluation.
struct OrderBfe {
    std::vector<unsigned> keys{0u};
    long fail_at = -1;
    mutable long done = 0;
    vd operator()(const pagmo::problem &p, const vd &dvs) const
    {
        const std::size_t n = dvs.size() / p.get_nx(), m = p.get_nobj(), d = p.get_nx();
        vd fs(n * m);
        std::vector<std::size_t> ord(n);
        std::iota(ord.begin(), ord.end(), std::size_t(0));
        std::stable_sort(ord.begin(), ord.end(),
                         [&](std::size_t a, std::size_t b) { return keys[a % keys.size()] < keys[b % keys.size()]; });
        const pagmo::problem q(p); // pagmo::bfe does the counting
        for (std::size_t i : ord) {
            if (done++ == fail_at) throw eval_failure();
            const vd f = q.fitness(vd(dvs.begin() + long(i * d), dvs.begin() + long((i + 1) * d)));
            std::copy(f.begin(), f.end(), fs.begin() + long(i * m));
        }
        if (recorder().on) recorder().batches.push_back({dvs, fs});
        return fs;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &keys &fail_at &done;
    }
};
// Every candidate on a thread of its own, with a private copy of the problem.
struct CrowdBfe {
    vd operator()(const pagmo::problem &p, const vd &dvs) const
    {
        const std::size_t n = dvs.size() / p.get_nx(), m = p.get_nobj(), d = p.get_nx();
        vd fs(n * m);
        std::vector<pagmo::problem> own(n, p);
        std::vector<std::exception_ptr> err(n);
        std::vector<std::function<void()>> th;
        for (std::size_t i = 0; i < n; ++i)
            th.push_back([&, i] {
                try {
                    const vd f = own[i].fitness(vd(dvs.begin() + long(i * d), dvs.begin() + long((i + 1) * d)));
                    std::copy(f.begin(), f.end(), fs.begin() + long(i * m));
                } catch (...) {
                    err[i] = std::current_exception();
                }
            });
        dsim::run_threads(th);
        for (auto &e : err)
            if (e) std::rethrow_exception(e);
        if (recorder().on) recorder().batches.push_back({dvs, fs});
        return fs;
    }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
enum BfeKind { NOBFE, DEFAULT_BFE, THREAD_BFE, ORDER_BFE, CROWD_BFE };

// ---- configurations -----------------------------------------------------------------------------------
struct Cfg {
    int kind = ES;
    unsigned gen = 1, mut = 1, verb = 0, seed = 0;
    double ftol = 0;
    bool learn = true;
    double lr = 1, lrmin = 1e-3;
    std::string sel = "best", rep = "best"; // gd4cgp; a number is an index
    unsigned srseed = 0;
    int bfe = NOBFE;
    OrderBfe order;
    bool multi() const { return kind == MOES || kind == MOMES; }
    bool batch() const { return kind == ES || kind == MOES; }
    std::string str() const
    {
        return std::string(kind_name(kind)) + " gen=" + std::to_string(gen) + " mut=" + std::to_string(mut) + " ftol="
               + hc::str(ftol) + (learn ? " learn" : "") + " verb=" + std::to_string(verb) + " seed="
               + std::to_string(seed) + " bfe=" + std::to_string(bfe)
               + (kind == GD ? " lr=" + hc::str(lr) + "/" + hc::str(lrmin) + " " + sel + "/" + rep : "");
    }
    pagmo::bfe make_bfe() const
    {
        switch (bfe) {
            case DEFAULT_BFE: return pagmo::bfe(pagmo::default_bfe{});
            case THREAD_BFE: return pagmo::bfe(pagmo::thread_bfe{});
            case ORDER_BFE: return pagmo::bfe(order);
            default: return pagmo::bfe(CrowdBfe{});
        }
    }
};
using Log = std::vector<std::pair<vd, std::string>>; // gen, fevals, best, ... then the formula
template <typename A>
Log read_log(const A &a)
{
    Log l;
    for (const auto &t : a.get_log()) {
        std::pair<vd, std::string> e;
        std::apply(
            [&](const auto &...v) {
                auto put = [&](const auto &x) {
                    using X = std::decay_t<decltype(x)>;
                    if constexpr (std::is_same_v<X, std::string>) e.second = x;
                    else if constexpr (std::is_same_v<X, vd>) e.first.insert(e.first.end(), x.begin(), x.end());
                    else e.first.push_back(double(x));
                };
                (put(v), ...);
            },
            t);
        l.push_back(std::move(e));
    }
    return l;
}
// calls f with the algorithm described by a configuration
template <typename F>
auto with_algo(const Cfg &c, F &&f)
{
    auto set = [&](auto &a) {
        a.set_verbosity(c.verb);
        if constexpr (std::is_same_v<std::decay_t<decltype(a)>, dcgp::es4cgp>
                      || std::is_same_v<std::decay_t<decltype(a)>, dcgp::moes4cgp>) {
            if (c.bfe != NOBFE) a.set_bfe(c.make_bfe());
        }
    };
    switch (c.kind) {
        case ES: {
            dcgp::es4cgp a(c.gen, c.mut, c.ftol, c.learn, c.seed);
            set(a);
            return f(a);
        }
        case MES: {
            dcgp::mes4cgp a(c.gen, c.mut, c.ftol, c.seed);
            set(a);
            return f(a);
        }
        case MOES: {
            dcgp::moes4cgp a(c.gen, c.mut, c.ftol, c.learn, c.seed);
            set(a);
            return f(a);
        }
        case MOMES: {
            dcgp::momes4cgp a(c.gen, c.mut, c.ftol, c.seed);
            set(a);
            return f(a);
        }
        default: {
            dcgp::gd4cgp a(c.gen, c.lr, c.lrmin);
            set(a);
            a.set_random_sr_seed(c.srseed);
            auto idx = [](const std::string &s) { return s[0] >= '0' && s[0] <= '9'; };
            if (idx(c.sel)) a.set_selection(pagmo::population::size_type(std::stoul(c.sel)));
            else a.set_selection(c.sel);
            if (idx(c.rep)) a.set_replacement(pagmo::population::size_type(std::stoul(c.rep)));
            else a.set_replacement(c.rep);
            return f(a);
        }
    }
}
struct Out {
    std::vector<vd> x, f;
    Log log;
    unsigned long long fevals = 0, gevals = 0, hevals = 0;
    int err = 0; // 0 none, 1 bad_alloc, 2 invalid_argument, 3 bad_point, 4 eval_failure, 5 another
    std::string what;
};
inline Out snapshot(const pagmo::population &p)
{
    Out o;
    o.x = p.get_x();
    o.f = p.get_f();
    o.fevals = p.get_problem().get_fevals();
    o.gevals = p.get_problem().get_gevals();
    o.hevals = p.get_problem().get_hevals();
    return o;
}
template <typename F>
void guarded(Out &o, F &&f)
{
    try {
        f();
    } catch (const bad_point &) {
        o.err = 3;
    } catch (const eval_failure &) {
        o.err = 4;
    } catch (const std::bad_alloc &) {
        o.err = 1;
    } catch (const std::invalid_argument &e) {
        o.err = 2;
        o.what = e.what();
    } catch (const std::exception &e) {
        o.err = 5;
        o.what = e.what();
    }
}
template <typename A>
Out evolve_with(const A &a, pagmo::population &pop, long oom = -1, bool *fired = nullptr)
{
    Out o;
    guarded(o, [&] {
        if (oom >= 0) dsim::arm_alloc_fault(std::uint64_t(oom));
        pop = a.evolve(pop);
    });
    if (oom >= 0) *fired = dsim::disarm_alloc_fault();
    const int err = o.err;
    const std::string what = o.what;
    o = snapshot(pop);
    o.err = err;
    o.what = what;
    o.log = read_log(a);
    return o;
}
inline Out evolve(const Cfg &c, pagmo::population &pop, long oom = -1, bool *fired = nullptr)
{
    return with_algo(c, [&](const auto &a) { return evolve_with(a, pop, oom, fired); });
}
inline std::string str(const Log &l)
{
    std::string s;
    for (auto &e : l) s += hc::str(e.first) + e.second + ";";
    return s;
}
inline bool same(const Log &a, const Log &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!hc::same(a[i].first, b[i].first) || a[i].second != b[i].second) return false;
    return true;
}
inline std::string diff(const Out &a, const Out &b, bool log = true)
{
    if (a.err != b.err) return "outcome " + std::to_string(a.err) + " " + a.what + " / " + std::to_string(b.err) + " " + b.what;
    if (a.x.size() != b.x.size()) return "population size";
    for (std::size_t i = 0; i < a.x.size(); ++i)
        if (!hc::same(a.x[i], b.x[i]) || !hc::same(a.f[i], b.f[i]))
            return "individual " + std::to_string(i) + ": " + hc::str(a.x[i]) + " " + hc::str(a.f[i]) + " / "
                   + hc::str(b.x[i]) + " " + hc::str(b.f[i]);
    if (!a.err && (a.fevals != b.fevals || a.gevals != b.gevals || a.hevals != b.hevals))
        return "evaluations " + std::to_string(a.fevals) + " " + std::to_string(a.gevals) + " " + std::to_string(a.hevals)
               + " / " + std::to_string(b.fevals) + " " + std::to_string(b.gevals) + " " + std::to_string(b.hevals);
    if (log && !same(a.log, b.log)) return "log " + str(a.log) + " / " + str(b.log);
    return "";
}
inline Cfg rnd_cfg(int kind, unsigned maxgen = 5)
{
    Cfg c;
    c.kind = kind;
    c.gen = chance(1, 12) ? 0 : maxgen > 2 && dsim::rare(30) ? range(10, 60) : range(1, maxgen);
    c.mut = chance(1, 15) ? range(6, 30) : range(1, 5);
    c.verb = chance(1, 10) ? range(4, 12) : pick(4);
    static const unsigned edge[] = {0u, 0u, 1u, 5489u, 4294967295u, 4294967294u};
    c.seed = chance(1, 6) ? edge[pick(6)] : pick(10000);
    c.learn = chance(2, 3);
    if (chance(1, 3)) c.ftol = double(range(1, 40)) / 8.;
    c.lr = double(range(1, 8)) / 4.;
    c.lrmin = chance(1, 2) ? 1e-3 : c.lr / 8.;
    c.srseed = pick(100);
    for (unsigned i = 0, n = range(1, 4); i < n; ++i) c.order.keys.push_back(pick(100));
    return c;
}
inline unsigned rnd_np(unsigned lo, unsigned hi) { return dsim::rare(25) ? range(12, 40) : range(lo, hi); }
// a problem the algorithm accepts; kind of kernels as in make_pref
inline PRef rnd_problem(const Cfg &c, int kernels, bool sequential = true)
{
    PRef q = make_pref(kernels, chance(1, 2));
    q.multi = c.multi();
    if (sequential && q.par > 1) q.par = 0;
    if (c.kind == GD && q.r.neph == 0) {
        q.r.neph = range(1, 2);
        q.r.s.n += q.r.neph;
        q.r.s.bounds(q.r.lb, q.r.ub);
    }
    return q;
}
} // namespace hx
PAGMO_S11N_BFE_EXPORT_KEY(hx::OrderBfe)
PAGMO_S11N_BFE_EXPORT_KEY(hx::CrowdBfe)
#endif
