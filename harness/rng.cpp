// C01: the program-wide random sequence is linearizable with respect to a single-threaded generator.
#include "../sim/dsim.hpp"
#include <algorithm>
#include <map>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include <dcgp/rng.hpp>

unsigned tu2_next();
void tu2_set_seed(unsigned);

namespace
{
struct Op {
    int thread;
    bool is_seed;
    unsigned arg;
    unsigned ret;
    std::uint64_t inv, res;
};

// reference: a sequential generator re-seeded and drawn from one operation at a time
struct Model {
    std::map<unsigned, std::vector<unsigned>> seqs;
    unsigned value(unsigned seed, unsigned k)
    {
        auto &v = seqs[seed];
        if (v.size() <= k) {
            std::mt19937 e(seed);
            v.clear();
            for (unsigned i = 0; i <= k + 32; ++i) v.push_back(static_cast<unsigned>(e()));
        }
        return v[k];
    }
};

// Wing & Gong search with memoisation; ops <= 63
struct Lin {
    const std::vector<Op> &h;
    Model &m;
    std::set<std::pair<std::uint64_t, std::pair<unsigned, unsigned>>> seen;
    std::uint64_t nodes = 0;
    bool go(std::uint64_t done, unsigned seed, unsigned k)
    {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        if (!seen.insert({done, {seed, k}}).second) return false;
        if (++nodes > 200000) return true; // budget: treated as not decided (counted by a probe)
        std::uint64_t minres = ~0ull;
        for (std::size_t i = 0; i < h.size(); ++i)
            if (!(done >> i & 1)) minres = std::min(minres, h[i].res);
        for (std::size_t i = 0; i < h.size(); ++i) {
            if ((done >> i & 1) || h[i].inv > minres) continue;
            if (h[i].is_seed) {
                if (go(done | 1ull << i, h[i].arg, 0)) return true;
            } else if (m.value(seed, k) == h[i].ret) {
                if (go(done | 1ull << i, seed, k + 1)) return true;
            }
        }
        return false;
    }
};

void run_history(unsigned nthreads, unsigned per, bool two_tu, unsigned seed_pct)
{
    using dsim::range;
    std::vector<Op> hist;
    hist.reserve(64);
    static const unsigned special[] = {0u, 1u, 623u, 624u, 5489u, 0x7fffffffu, 0x80000000u, 0xffffff00u};
    unsigned uniq = dsim::chance(1, 4) ? special[dsim::pick(8)] : 1 + dsim::pick(1000);
    const unsigned s0 = uniq;
    if (two_tu && dsim::chance(1, 2)) tu2_set_seed(s0);
    else dcgp::random_device::set_seed(s0);
    // pre-generate programs
    struct P {
        bool is_seed, tu2;
        unsigned arg;
    };
    std::vector<std::vector<P>> prog(nthreads);
    const bool reuse = dsim::chance(1, 3); // some histories re-use seeds
    for (auto &p : prog)
        for (unsigned i = 0; i < per; ++i) {
            P q{dsim::chance(seed_pct, 100), two_tu && dsim::chance(1, 2), 0};
            q.arg = q.is_seed ? (reuse ? s0 + dsim::pick(2) : ++uniq) : 0;
            p.push_back(q);
        }
    auto body = [&](int t) {
        for (const auto &q : prog[std::size_t(t)]) {
            Op o{t, q.is_seed, q.arg, 0, 0, 0};
            o.inv = dsim::seq();
            if (q.is_seed) {
                if (q.tu2) tu2_set_seed(q.arg);
                else dcgp::random_device::set_seed(q.arg);
            } else
                o.ret = q.tu2 ? tu2_next() : dcgp::random_device::next();
            o.res = dsim::seq();
            dsim::Quiet qq;
            dsim::event(q.is_seed ? "set_seed" : "next", q.is_seed ? q.arg : o.ret);
            hist.push_back(o);
        }
    };
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nthreads; ++t) bodies.push_back([&, t] { body(int(t)); });
    dsim::run_threads(bodies);
    dsim::Quiet q;
    unsigned overlap = 0;
    for (auto &a : hist)
        for (auto &b : hist)
            if (a.thread < b.thread && a.inv < b.res && b.inv < a.res) ++overlap;
    if (overlap) dsim::probe("overlapping-operation-pairs", overlap);
    if (overlap || nthreads == 1) dsim::nontrivial();
    Model m;
    Lin l{hist, m, {}, 0};
    if (!l.go(0, s0, 0)) {
        std::string d = "no sequential order of the generator explains: seed0=" + std::to_string(s0);
        std::sort(hist.begin(), hist.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
        for (auto &o : hist)
            d += " [t" + std::to_string(o.thread) + (o.is_seed ? " set_seed(" + std::to_string(o.arg) + ")" : " next=" + std::to_string(o.ret)) + " @" + std::to_string(o.inv) + "-" + std::to_string(o.res) + "]";
        dsim::violation("not-linearizable", d);
    }
    if (l.nodes > 200000) dsim::probe("linearizability-budget-exceeded");
}

// many draws: several times the state of the generator, from any number of threads, re-seeded in between
void long_history()
{
    const unsigned T = dsim::range(1, 4);
    for (unsigned round = 0, nr = dsim::range(1, 2); round < nr; ++round) {
        const unsigned s = dsim::chance(1, 4) ? 0xffffffffu - dsim::pick(3) : dsim::pick(1000), per = dsim::range(100, 1500) / T;
        dcgp::random_device::set_seed(s);
        std::vector<std::vector<unsigned>> got(T);
        std::vector<std::function<void()>> bodies;
        for (unsigned t = 0; t < T; ++t)
            bodies.push_back([&, t] {
                for (unsigned i = 0; i < per; ++i) {
                    const unsigned v = i % 2 ? tu2_next() : dcgp::random_device::next();
                    dsim::Quiet q;
                    got[t].push_back(v);
                }
            });
        dsim::run_threads(bodies);
        dsim::Quiet q;
        std::multimap<unsigned, unsigned> where; // value -> position in the sequence
        std::mt19937 e(s);
        for (unsigned i = 0; i < T * per; ++i) where.emplace(unsigned(e()), i);
        const std::string w = "seed " + std::to_string(s) + ", " + std::to_string(T) + " threads drawing " + std::to_string(per) + " each: ";
        std::multiset<unsigned> all;
        for (unsigned t = 0; t < T; ++t) {
            long last = -1;
            for (unsigned i = 0; i < per; ++i) {
                const auto r = where.equal_range(got[t][i]);
                DSIM_CHECK(r.first != r.second, "not-linearizable",
                           w + "draw " + std::to_string(i) + " of thread " + std::to_string(t) + " is not among the numbers of the sequence");
                all.insert(got[t][i]);
                DSIM_CHECK(all.count(got[t][i]) <= std::size_t(std::distance(r.first, r.second)), "not-linearizable",
                           w + "a number of the sequence was drawn twice");
                if (std::next(r.first) != r.second) continue; // the position is not unique
                DSIM_CHECK(long(r.first->second) > last, "not-linearizable", w + "a thread drew numbers in the wrong order");
                last = long(r.first->second);
            }
        }
        if (per * T > 624) dsim::probe("more-draws-than-state");
    }
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(C01, long_history, 1) { long_history(); }
DSIM_SCENARIO(C01, concurrent_next, 4) { run_history(dsim::range(2, 4), dsim::range(1, 6), dsim::chance(1, 2), 0); }
DSIM_SCENARIO(C01, concurrent_mixed, 5) { run_history(dsim::range(2, 4), dsim::range(1, 6), dsim::chance(1, 2), 25); }
DSIM_SCENARIO(C01, sequential_history, 1) { run_history(1, dsim::range(1, 40), true, 15); }
