// C05 (batch evaluation), C06 (reproducibility), E05 (truth of the population), E06 (logs)
#include "evo.hpp"

namespace
{
std::string ctx(const Cfg &c, const PRef &q)
{
    return c.str() + " [" + q.str() + "]: ";
}
// a population of a problem; the seeds decide everything
pagmo::population make_pop(const PRef &q, unsigned np, unsigned seed)
{
    return pagmo::population(pagmo::problem(q.build()), np, seed);
}
bool finite(const pagmo::population &p)
{
    for (auto &f : p.get_f())
        for (double v : f)
            if (!std::isfinite(v)) return false;
    return true;
}
bool worse(double a, double b) // a worse than b; a NaN is worse than anything
{
    if (std::isnan(a)) return !std::isnan(b);
    return !std::isnan(b) && a > b;
}
double best_of(const std::vector<vd> &f)
{
    double b = f[0][0];
    for (auto &v : f)
        if (worse(b, v[0])) b = v[0];
    return b;
}
bool dominates(const vd &a, const vd &b)
{
    bool strict = false;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (a[i] > b[i]) return false;
        strict |= a[i] < b[i];
    }
    return strict;
}
void check_legal(const vd &x, const PRef &q, const std::string &w)
{
    DSIM_CHECK(x.size() == q.r.neph + q.r.lb.size(), "illegal-candidate", w + "wrong length");
    for (std::size_t i = 0; i < q.r.lb.size(); ++i) {
        const double g = x[q.r.neph + i];
        DSIM_CHECK(g == std::floor(g) && g >= q.r.lb[i] && g <= q.r.ub[i], "illegal-candidate",
                   w + "gene " + std::to_string(i) + " of " + hc::str(x));
    }
}
void hash(const Out &o)
{
    dsim::event("evolved", o.f.empty() ? 0 : dsim::bits(o.f[0][0]), o.fevals, std::uint64_t(o.err) * 100 + o.log.size());
}
// ---- C05 ------------------------------------------------------------------------------------------------
void batches(bool failing)
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 4));
    Cfg c = rnd_cfg(chance(1, 2) ? ES : MOES, 4);
    PRef q = rnd_problem(c, failing ? 2 : pick(2));
    if (failing) q.r.limit = double(range(3, 40));
    if (!failing && chance(1, 3)) {
        q.r.has_pc = true;
        q.pclevel = 1;
    }
    const unsigned np = rnd_np(2, 6), ps = pick(1000);
    std::optional<pagmo::population> p0;
    try {
        dsim::Quiet quiet;
        p0.emplace(make_pop(q, np, ps));
    } catch (const bad_point &) {
        return;
    }
    c.bfe = NOBFE;
    Out base;
    pagmo::population pb(*p0);
    {
        dsim::Quiet quiet;
        base = evolve(c, pb);
    }
    hash(base);
    if (failing) DSIM_CHECK(base.err == 0 || base.err == 3, "wrong-error", ctx(c, q) + base.what);
    Cfg d = c;
    d.bfe = range(DEFAULT_BFE, CROWD_BFE);
    const std::uint64_t total = base.fevals - p0->get_problem().get_fevals();
    const bool inject = d.bfe == ORDER_BFE && base.err == 0 && chance(1, 2) && total > 0;
    if (inject) d.order.fail_at = long(dsim::fpick(unsigned(total)));
    pagmo::population pop(*p0);
    const std::string before = hc::dump(pop, false);
    recorder().on = true;
    recorder().batches.clear();
    const Out got = evolve(d, pop);
    recorder().on = false;
    hash(got);
    const std::string w = ctx(d, q);
    const int lev = q.level();
    if (inject) {
        DSIM_CHECK(got.err == 4, "lost-error", w + "the failure of evaluation " + std::to_string(d.order.fail_at) + " of "
                                                   + std::to_string(total) + " was not reported");
        DSIM_CHECK(hc::dump(pop, false) == before, "failed-run-had-effect", w + "a failed run changed the population");
        dsim::fault_fired("failed-evaluation");
    } else if (lev == 0 && (d.bfe == DEFAULT_BFE || d.bfe == THREAD_BFE)) {
        // an object that cannot be used from other threads
        DSIM_CHECK(total == 0 || got.err == 2 || got.err == 5, "shared-between-threads",
                   w + "a problem without thread safety was evaluated by other threads");
        dsim::probe("batch-refused");
    } else {
        if (base.err) {
            DSIM_CHECK(got.err == base.err, "lost-error", w + "the sequential run fails, this one does not");
            DSIM_CHECK(hc::dump(pop, false) == before, "failed-run-had-effect", w + "a failed run changed the population");
            dsim::fault_fired("failed-evaluation");
        } else {
            const std::string e = diff(base, got);
            DSIM_CHECK(e.empty(), "batch-differs", w + e);
        }
        if (d.bfe >= ORDER_BFE)
            for (auto &b : recorder().batches) {
                DSIM_CHECK(b.dvs.size() == np * p0->get_problem().get_nx(), "illegal-candidate", w + "size of a batch");
                for (unsigned i = 0; i < np; ++i)
                    check_legal(vd(b.dvs.begin() + long(i * p0->get_problem().get_nx()),
                                   b.dvs.begin() + long((i + 1) * p0->get_problem().get_nx())),
                                q, w);
            }
        dsim::probe("batch-compared");
    }
    dsim::nontrivial();
}
// ---- C06 ------------------------------------------------------------------------------------------------
// things that must not matter
void disturb(unsigned n)
{
    for (unsigned i = 0; i < n; ++i) switch (pick(5)) {
            case 0: dcgp::random_device::set_seed(pick(1000)); break;
            case 1: dcgp::random_device::next(); break;
            case 2: {
                Cfg c = rnd_cfg(int(pick(5)), 2);
                c.verb = 0;
                PRef q = rnd_problem(c, 0);
                pagmo::population p(make_pop(q, range(2, 3), pick(100)));
                evolve(c, p);
                break;
            }
            case 3: {
                Ref r = make_ref(false, false, true);
                Ex e = make_ex(r, pick(100));
                e.mutate_random(5);
                break;
            }
            default: {
                Sr s(vvd{{1.}, {2.}}, vvd{{1.}, {2.}});
                pagmo::population p(s, 2u);
            }
        }
}
Out one_run(const Cfg &c, const PRef &q, unsigned np, unsigned ps, unsigned how)
{
    pagmo::population pop(make_pop(q, np, ps));
    // the population of an earlier run: the same one or another of another problem
    auto earlier = [&] {
        if (how == 0 || chance(1, 2)) return pagmo::population(pop);
        return make_pop(rnd_problem(c, 0), range(2, 3), pick(100));
    };
    switch (how) {
        case 1: { // seeded later, after having been used
            Cfg d = c;
            d.seed = chance(1, 2) ? c.seed + 1 : pick(3);
            return with_algo(d, [&](auto &a) {
                const pagmo::population other = earlier();
                a.evolve(other);
                if constexpr (!std::is_same_v<std::decay_t<decltype(a)>, dcgp::gd4cgp>) {
                    DSIM_CHECK(a.get_seed() == d.seed, "wrong-seed", "an algorithm reports the seed " + std::to_string(a.get_seed()));
                    a.set_seed(c.seed);
                    DSIM_CHECK(a.get_seed() == c.seed, "wrong-seed", "an algorithm reports the seed " + std::to_string(a.get_seed()));
                }
                return evolve_with(a, pop);
            });
        }
        case 2: // a copy, while the original goes on
            return with_algo(c, [&](auto &a) {
                const pagmo::population other = earlier();
                std::decay_t<decltype(a)> b(a);
                if (chance(1, 2)) { // assigned to one already used
                    Cfg d = c;
                    d.seed = pick(100);
                    d.gen = 1;
                    with_algo(d, [&](auto &u) {
                        if constexpr (std::is_same_v<std::decay_t<decltype(u)>, std::decay_t<decltype(a)>>) {
                            u.evolve(other);
                            u = a;
                            b = std::move(u);
                        }
                        return Out();
                    });
                }
                a.evolve(other);
                return evolve_with(b, pop);
            });
        case 3: { // through pagmo
            return with_algo(c, [&](auto &a) {
                pagmo::algorithm g(a);
                if constexpr (!std::is_same_v<std::decay_t<decltype(a)>, dcgp::gd4cgp>) g.set_seed(c.seed);
                Out o;
                pop = g.evolve(pop);
                o = snapshot(pop);
                o.log = read_log(*g.extract<std::decay_t<decltype(a)>>());
                return o;
            });
        }
        default: return evolve(c, pop);
    }
}
void reproducible()
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 3));
    Cfg c = rnd_cfg(int(pick(5)), 3);
    if (c.batch()) c.bfe = int(pick(5));
    PRef q = rnd_problem(c, pick(2));
    const unsigned np = rnd_np(2, 5), ps = pick(1000);
    Out want;
    {
        dsim::Quiet quiet;
        want = one_run(c, q, np, ps, 0);
    }
    hash(want);
    for (unsigned i = 0, n = range(1, 2); i < n; ++i) {
        {
            dsim::Atomic at;
            disturb(pick(3));
        }
        const unsigned how = pick(4);
        const Out got = one_run(c, q, np, ps, how);
        hash(got);
        const std::string e = diff(want, got);
        DSIM_CHECK(e.empty(), "not-reproducible", ctx(c, q) + "repeated " + std::to_string(how) + ": " + e);
    }
    // two runs started from the library-wide source
    const unsigned ls = pick(1000);
    Out l[2];
    for (int k = 0; k < 2; ++k) {
        dcgp::random_device::set_seed(ls);
        PRef r = q;
        Sr s(r.X, r.Y, r.r.s.r, r.r.s.c, r.r.s.l, r.r.s.arity[0], r.make_kernels(), r.r.neph, r.multi, 0u, "MSE");
        pagmo::population p(s, np, ps);
        if (c.kind == ES) l[k] = evolve_with(dcgp::es4cgp(2u, 3u, 0., true), p);
        else if (c.kind == MES) l[k] = evolve_with(dcgp::mes4cgp(2u, 3u), p);
        else if (c.kind == MOES) l[k] = evolve_with(dcgp::moes4cgp(2u, 3u, 0., true), p);
        else if (c.kind == MOMES) l[k] = evolve_with(dcgp::momes4cgp(2u, 3u), p);
        if (k == 0) {
            dsim::Atomic at;
            disturb(1);
        }
    }
    if (c.kind != GD) {
        const std::string e = diff(l[0], l[1]);
        DSIM_CHECK(e.empty(), "not-reproducible", ctx(c, q) + "after seeding the library: " + e);
    }
    dsim::nontrivial();
}
void reproducible_threads()
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 2));
    const unsigned T = range(2, 3);
    std::vector<Cfg> c;
    std::vector<PRef> q;
    std::vector<unsigned> np, ps;
    std::vector<Out> want(T), got(T);
    const bool alike = chance(1, 2); // the same problem and algorithm on every thread
    for (unsigned i = 0; i < T; ++i) {
        if (i && alike) {
            c.push_back(c[0]);
            q.push_back(q[0]);
            np.push_back(np[0]);
            ps.push_back(chance(1, 2) ? ps[0] : pick(1000));
            continue;
        }
        c.push_back(rnd_cfg(int(pick(5)), 2));
        c.back().verb = 0; // the standard output is shared
        if (c.back().batch() && chance(1, 3)) c.back().bfe = THREAD_BFE;
        q.push_back(rnd_problem(c.back(), pick(2)));
        np.push_back(range(2, 3));
        ps.push_back(pick(1000));
    }
    std::vector<pagmo::population> pops;
    {
        dsim::Quiet quiet;
        for (unsigned i = 0; i < T; ++i) want[i] = one_run(c[i], q[i], np[i], ps[i], 0);
    }
    for (unsigned i = 0; i < T; ++i) {
        if (i && alike && ps[i] == ps[0]) pops.push_back(pops[0]);
        else pops.push_back(make_pop(q[i], np[i], ps[i]));
    }
    std::vector<std::function<void()>> th;
    std::vector<unsigned> noise(T);
    for (auto &n : noise) n = pick(4);
    for (unsigned i = 0; i < T; ++i)
        th.push_back([&, i] {
            if (noise[i] == 1) dcgp::random_device::set_seed(i);
            if (noise[i] == 2) dcgp::random_device::next();
            got[i] = evolve(c[i], pops[i]);
        });
    dsim::run_threads(th);
    for (unsigned i = 0; i < T; ++i) {
        hash(got[i]);
        const std::string e = diff(want[i], got[i]);
        DSIM_CHECK(e.empty(), "not-reproducible", ctx(c[i], q[i]) + "with other threads at work: " + e);
    }
    dsim::nontrivial();
}
// ---- E05 ------------------------------------------------------------------------------------------------
void truth(int kernels)
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 3));
    Cfg c = rnd_cfg(int(pick(5)), 4);
    PRef q = rnd_problem(c, kernels, false);
    if (kernels == 2) q.r.limit = double(range(5, 60));
    if (chance(1, 2)) {
        q.r.has_pc = true;
        q.r.pc.a = double(range(1, 3));
        q.r.pc.b = double(pick(2));
        q.pclevel = 1;
    }
    if (c.batch() && chance(1, 2)) c.bfe = q.level() > 0 ? range(DEFAULT_BFE, CROWD_BFE) : int(ORDER_BFE);
    if (c.kind == GD && chance(1, 2)) {
        static const char *pol[] = {"best", "worst", "random", "0", "1"};
        c.sel = pol[pick(5)];
        c.rep = pol[pick(5)];
    }
    const unsigned np = rnd_np(2, 6);
    std::optional<pagmo::population> pp;
    try {
        dsim::Quiet quiet;
        pp.emplace(make_pop(q, np, pick(1000)));
    } catch (const bad_point &) {
        return;
    }
    pagmo::population &pop = *pp;
    std::optional<Sr> fresh;
    {
        dsim::Quiet quiet;
        PRef s = q;
        s.par = 0;
        s.r.limit = 1e300;
        fresh.emplace(s.build());
    }
    if (pop.get_problem().get_nx() && chance(1, 4)) { // duplicates
        pop.set_xf(1, pop.get_x()[0], pop.get_f()[0]);
    }
    for (unsigned step = 0, n = range(1, 3); step < n; ++step) {
        if (step && chance(1, 3)) {
            const int b = c.bfe;
            const Cfg d = rnd_cfg(c.kind, 4);
            c.gen = d.gen, c.mut = d.mut, c.ftol = d.ftol, c.learn = d.learn, c.seed = d.seed, c.verb = d.verb;
            c.bfe = b;
        }
        const std::string w = ctx(c, q);
        const Out old = snapshot(pop);
        const std::string before = hc::dump(pop, false);
        const auto ids = pop.get_ID();
        const std::uint64_t calls = pc_calls();
        const long oom = dsim::fchance(1, 6) ? long(dsim::fpick(4000)) : -1;
        bool fired = false;
        recorder().on = true;
        recorder().batches.clear();
        pc_tape().on = q.r.has_pc && q.par == 0 && c.bfe == NOBFE;
        pc_tape().points.clear();
        const Out now = evolve(c, pop, oom, &fired);
        recorder().on = pc_tape().on = false;
        const std::uint64_t called = pc_calls() - calls;
        hash(now);
        if (now.err) {
            DSIM_CHECK((now.err == 3 && kernels == 2) || (now.err == 1 && fired), "wrong-error", w + now.what);
            DSIM_CHECK(hc::dump(pop, false) == before, "failed-run-had-effect", w + "a failed run changed the population");
            dsim::fault_fired(now.err == 3 ? "failed-evaluation" : "evolve-out-of-memory");
            if (kernels == 2) break;
            continue;
        }
        if (fired) continue; // survived by a retry somewhere: nothing was lost, but counters may be off
        DSIM_CHECK(now.x.size() == np && now.f.size() == np && pop.get_ID().size() == np, "population-size", w);
        for (unsigned i = 0; i < np; ++i) {
            check_legal(now.x[i], q, w);
            vd f;
            {
                dsim::Quiet quiet;
                f = fresh->fitness(now.x[i]);
            }
            DSIM_CHECK(f.size() == now.f[i].size()
                           && (q.par ? hc::close(f[0], now.f[i][0], 1e-9) && (f.size() == 1 || f[1] == now.f[i][1])
                                     : hc::same(f, now.f[i])),
                       "stored-fitness",
                       w + "individual " + hc::str(now.x[i]) + " is stored with " + hc::str(now.f[i]) + " but has " + hc::str(f));
        }
        // what was counted is what was done
        const std::uint64_t made = now.fevals - old.fevals;
        if (q.r.has_pc)
            DSIM_CHECK(called == made * q.X.size(), "evaluation-count",
                       w + std::to_string(made) + " evaluations reported, " + std::to_string(called)
                           + " points evaluated for " + std::to_string(q.X.size()) + " data");
        if (c.kind != GD)
            DSIM_CHECK(made % np == 0 && made <= std::uint64_t(np) * c.gen && (c.ftol > 0. || made == std::uint64_t(np) * c.gen),
                       "evaluation-count", w + std::to_string(made) + " evaluations");
        // the best evaluated is kept
        if (q.r.has_pc && q.par == 0 && c.bfe == NOBFE && !c.multi() && (c.kind != GD || (c.sel == "best" && c.rep == "best"))) {
            double b = best_of(old.f);
            bool clean = std::isfinite(b) && std::isfinite(old.f[0][0]);
            for (double l : q.losses(pc_tape())) {
                clean &= std::isfinite(l);
                if (worse(b, l)) b = l;
            }
            if (clean) {
                DSIM_CHECK(hc::close(best_of(now.f), b, 1e-9), "lost-best",
                           w + "the best found is " + hc::str(b) + " but the population has " + hc::str(best_of(now.f)));
                dsim::probe("tape-compared");
            }
        }
        // the rest of the population
        unsigned changed = 0, at = 0;
        for (unsigned i = 0; i < np; ++i)
            if (!hc::same(now.x[i], old.x[i])) {
                ++changed;
                at = i;
            }
        if (!c.multi() && (c.kind != GD || (c.sel == "best" && c.rep == "best")))
            DSIM_CHECK(!worse(best_of(now.f), best_of(old.f)), "lost-best",
                       w + "best was " + hc::str(best_of(old.f)) + " and is " + hc::str(best_of(now.f)));
        if (c.kind == GD || c.kind == MES) DSIM_CHECK(changed <= 1, "collateral-change", w + std::to_string(changed) + " individuals changed");
        if (c.kind == GD && changed) {
            bool ok = false;
            for (unsigned j = 0; j < np; ++j) {
                if (c.sel[0] >= '0' && c.sel[0] <= '9' && j != std::stoul(c.sel)) continue;
                if (c.sel == "best" && worse(old.f[j][0], best_of(old.f))) continue;
                ok |= !worse(now.f[at][0], old.f[j][0])
                      && std::equal(old.x[j].begin() + q.r.neph, old.x[j].end(), now.x[at].begin() + q.r.neph);
            }
            DSIM_CHECK(ok, "collateral-change",
                       w + "the new individual " + hc::str(now.x[at]) + " " + hc::str(now.f[at]) + " is not an improved selected one");
            if (c.rep[0] >= '0' && c.rep[0] <= '9') DSIM_CHECK(at == std::stoul(c.rep), "collateral-change", w + "another one was replaced");
        }
        if (c.batch() && !c.learn)
            for (unsigned i = 0; i < np; ++i) {
                bool ok = false;
                for (unsigned j = 0; j < np; ++j)
                    ok |= std::equal(old.x[j].begin(), old.x[j].begin() + q.r.neph, now.x[i].begin());
                DSIM_CHECK(ok, "constants-changed", w + "constants of " + hc::str(now.x[i]) + " are not those of any parent");
            }
        if (c.batch() && c.bfe >= ORDER_BFE) {
            // every survivor is a parent or a candidate, with its fitness, and the best of all is there
            const unsigned nx = unsigned(old.x[0].size()), no = unsigned(old.f[0].size());
            std::vector<std::pair<vd, vd>> all;
            for (unsigned i = 0; i < np; ++i) all.emplace_back(old.x[i], old.f[i]);
            for (auto &b : recorder().batches)
                for (unsigned i = 0; i < np; ++i)
                    all.emplace_back(vd(b.dvs.begin() + i * nx, b.dvs.begin() + (i + 1) * nx),
                                     vd(b.fs.begin() + i * no, b.fs.begin() + (i + 1) * no));
            DSIM_CHECK(recorder().batches.size() * np == made, "evaluation-count", w + "batches and evaluations differ");
            std::vector<char> used(all.size(), 0);
            for (unsigned i = 0; i < np; ++i) {
                bool ok = false;
                for (std::size_t k = 0; k < all.size() && !ok; ++k)
                    if (hc::same(all[k].first, now.x[i]) && hc::same(all[k].second, now.f[i])) {
                        ok = true;
                        used[k] = 1;
                    }
                DSIM_CHECK(ok, "unknown-survivor", w + hc::str(now.x[i]) + " " + hc::str(now.f[i]) + " is neither a parent nor a candidate");
            }
            if (c.kind == ES) {
                double b = old.f[0][0];
                for (auto &a : all)
                    if (worse(b, a.second[0])) b = a.second[0];
                DSIM_CHECK(hc::same(best_of(now.f), b), "lost-best",
                           w + "the best found is " + hc::str(b) + " but the population has " + hc::str(best_of(now.f)));
            }
            if (c.kind == MOES && recorder().batches.size() == 1) {
                bool fin = true;
                for (auto &a : all)
                    for (double v : a.second) fin &= std::isfinite(v);
                if (fin)
                    for (auto &f : now.f)
                        for (std::size_t k = 0; k < all.size(); ++k) {
                            if (!dominates(all[k].second, f)) continue;
                            bool kept = false;
                            for (unsigned j = 0; j < np; ++j) kept |= hc::same(now.x[j], all[k].first);
                            DSIM_CHECK(kept, "lost-best", w + "a survivor with " + hc::str(f) + " is dominated by the discarded " + hc::str(all[k].second));
                            dsim::probe("survivors-compared");
                        }
            }
        }
        if (c.kind == MOMES && made == np) {
            bool fin = finite(pop);
            for (auto &f : old.f)
                for (double v : f) fin &= std::isfinite(v);
            if (fin)
                for (unsigned i = 0; i < np; ++i)
                    for (unsigned k = 0; k < np; ++k) {
                        if (!dominates(old.f[k], now.f[i])) continue;
                        bool kept = false;
                        for (unsigned j = 0; j < np; ++j) kept |= hc::same(now.x[j], old.x[k]);
                        DSIM_CHECK(kept, "lost-best", w + "a survivor with " + hc::str(now.f[i]) + " is dominated by the discarded parent " + hc::str(old.f[k]));
                        dsim::probe("survivors-compared");
                    }
        }
        // nothing else in the population moved
        if (c.gen == 0)
            DSIM_CHECK(made == 0 && changed == 0 && ids == pop.get_ID(), "collateral-change", w + "zero generations changed something");
        dsim::nontrivial();
    }
}
// algorithms refuse what they cannot work on, and leave it alone
void refused()
{
    Cfg c = rnd_cfg(int(pick(5)), 2);
    PRef q = rnd_problem(c, 1);
    unsigned np = range(2, 4);
    bool must = true;
    const unsigned how = pick(4);
    if (how == 0) q.multi = !q.multi;
    else if (how == 1 && c.kind != GD) np = 1;
    else if (how == 2 && c.kind == GD) {
        q.r.s.n -= q.r.neph;
        q.r.neph = 0;
        q.r.s.bounds(q.r.lb, q.r.ub);
        for (auto &x : q.X) x.resize(q.r.s.n, 0.5);
    } else if (how == 3) {
        pagmo::population pop(pagmo::problem{}, 3u, 1u);
        const std::string before = hc::dump(pop, false);
        const Out o = evolve(c, pop);
        DSIM_CHECK(o.err == 2 && hc::dump(pop, false) == before, "invalid-accepted", c.str() + " accepted a foreign problem");
        dsim::event("refused", how, unsigned(c.kind));
        dsim::nontrivial();
        return;
    } else
        must = false;
    pagmo::population pop(make_pop(q, np, 3));
    const std::string before = hc::dump(pop, false);
    const Out o = evolve(c, pop);
    dsim::event("refused", how, unsigned(c.kind), unsigned(o.err));
    if (must)
        DSIM_CHECK(o.err == 2 && hc::dump(pop, false) == before, "invalid-accepted",
                   ctx(c, q) + "accepted a population it must refuse, kind " + std::to_string(how));
    bool threw = false;
    try {
        switch (pick(3)) {
            case 0:
                if (c.kind == ES) dcgp::es4cgp(1u, 0u);
                else if (c.kind == MES) dcgp::mes4cgp(1u, 0u);
                else if (c.kind == MOES) dcgp::moes4cgp(1u, 0u);
                else if (c.kind == MOMES) dcgp::momes4cgp(1u, 0u);
                else dcgp::gd4cgp(1u, 1., 0.);
                break;
            case 1:
                if (c.kind == ES) dcgp::es4cgp(1u, 1u, -1.);
                else if (c.kind == MES) dcgp::mes4cgp(1u, 1u, -1.);
                else if (c.kind == MOES) dcgp::moes4cgp(1u, 1u, -1.);
                else if (c.kind == MOMES) dcgp::momes4cgp(1u, 1u, -1.);
                else dcgp::gd4cgp(1u, 1., 1.);
                break;
            default:
                if (c.kind == GD) dcgp::gd4cgp(1u, 1., -1e-3);
                else throw std::invalid_argument("");
        }
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    DSIM_CHECK(threw, "invalid-accepted", c.str() + " accepted invalid parameters");
    dsim::nontrivial();
}
// ---- E06 ------------------------------------------------------------------------------------------------
double log_gen(const Log &l, std::size_t i) { return l[i].first[0]; }
double log_best(const Cfg &c, const Log &l, std::size_t i) { return l[i].first[c.kind == GD ? 5 : 2]; }
// what is printed while f runs
template <typename F>
std::string screen(F &&f)
{
    std::ostringstream ss;
    struct Back {
        std::streambuf *b;
        ~Back() { std::cout.rdbuf(b); }
    } back{std::cout.rdbuf(ss.rdbuf())};
    f();
    std::cout.flush();
    return ss.str();
}
// the printed lines say what the log says; returns the reason printed for stopping
std::string check_screen(const Cfg &c, const Log &l, const std::string &text, const std::string &w)
{
    std::istringstream in(text);
    std::vector<std::string> rows, reasons;
    unsigned heads = 0;
    for (std::string line; std::getline(in, line);) {
        const std::size_t a = line.find_first_not_of(" ");
        if (a == std::string::npos) continue;
        if (line.compare(a, 4, "Exit") == 0) reasons.push_back(line.substr(a));
        else if (line.find("Gen:") != std::string::npos || line.find("Iter:") != std::string::npos) {
            DSIM_CHECK(rows.size() == heads * 50u, "wrong-screen", w + "titles out of place in " + text);
            ++heads;
        } else if (line[a] >= '0' && line[a] <= '9') rows.push_back(line);
    }
    DSIM_CHECK(rows.size() == l.size(), "wrong-screen", w + "lines printed: " + text + " for the log " + str(l));
    for (std::size_t i = 0; i < l.size(); ++i) {
        const vd &v = l[i].first;
        const char *p = rows[i].c_str();
        const std::size_t n = c.kind == ES || c.kind == MES ? 3u : v.size();
        for (std::size_t k = 0; k < n; ++k) {
            char *e = nullptr;
            const double x = std::strtod(p, &e);
            DSIM_CHECK(e != p && (hc::same(x, v[k]) || std::abs(x - v[k]) <= 1e-5 * std::abs(v[k])), "wrong-screen",
                       w + "printed " + rows[i] + " for " + hc::str(v));
            p = e;
        }
        if (c.kind == ES || c.kind == MES) {
            const std::string f = rows[i].substr(rows[i].rfind('\t') + 1);
            DSIM_CHECK(f == l[i].second.substr(0, 40) + " ...", "wrong-screen", w + "printed " + rows[i] + " for " + l[i].second);
        }
    }
    if (!l.empty())
        DSIM_CHECK(heads >= 1 && heads <= (l.size() + 49u) / 50u, "wrong-screen", w + "titles in " + text);
    DSIM_CHECK(reasons.size() == (c.verb && c.gen ? 1u : reasons.size()) && (c.verb || text.empty()), "wrong-screen", w + "printed " + text);
    return reasons.empty() ? "" : reasons[0];
}
void logs()
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 2));
    Cfg c = rnd_cfg(int(pick(5)), 7);
    if (dsim::rare(25)) {
        c.gen = range(50, 104);
        c.mut = 1;
    }
    PRef q = rnd_problem(c, pick(2));
    const unsigned np = rnd_np(2, 4);
    pagmo::population p0 = make_pop(q, np, pick(1000));
    std::string reason;
    auto told = [&](const char *r) { return reason.find(r) != std::string::npos; };
    auto run = [&](const Cfg &d, pagmo::population *keep = nullptr) {
        pagmo::population p(p0);
        Out o;
        const std::string text = screen([&] { o = evolve(d, p); });
        if (!o.err) reason = check_screen(d, o.log, text, ctx(d, q));
        if (keep) *keep = p;
        return o;
    };
    Cfg full = c; // everything logged, no early stop
    full.verb = 1;
    full.ftol = 0.;
    pagmo::population pf(p0);
    const Out L = run(full, &pf);
    hash(L);
    const std::string w = ctx(c, q);
    const std::uint64_t f0 = p0.get_problem().get_fevals();
    if (c.gen && c.kind != GD)
        DSIM_CHECK(!told("ftol") && told("generations"), "wrong-screen", w + "stopped by " + reason);
    // the log tells what happened
    if (c.gen == 0) {
        DSIM_CHECK(L.log.empty() && hc::same(L.x, snapshot(p0).x), "wrong-log", w + "no generations");
        Cfg d = full;
        d.verb = 0;
        run(d); // prints nothing
        dsim::nontrivial();
        return;
    }
    // pagmo does not look past a NaN in the first place when asked for the best
    const bool quirk = !c.multi() && std::isnan(p0.get_f()[p0.best_idx()][0]) && !std::isnan(best_of(p0.get_f()));
    const bool gd_idle = c.kind == GD && !std::isfinite(p0.get_f()[p0.best_idx()][0]);
    if (!gd_idle) {
        DSIM_CHECK(L.log.size() >= 2 && log_gen(L.log, 0) == 0., "wrong-log", w + str(L.log));
        const std::size_t last = L.log.size() - 1;
        if (c.kind != GD)
            DSIM_CHECK(L.log.size() == c.gen + 1u, "wrong-log", w + "number of lines " + std::to_string(L.log.size()));
        for (std::size_t i = 0; i <= last; ++i) {
            const vd &v = L.log[i].first;
            if (c.kind != GD) {
                DSIM_CHECK(v[0] == double(i), "wrong-log", w + "generation in " + str(L.log));
                DSIM_CHECK(v[1] == double(np) * double(i), "wrong-log", w + "evaluations in " + str(L.log));
            } else {
                DSIM_CHECK(i == 0 || v[0] == double(i), "wrong-log", w + "iteration in " + str(L.log));
                // one gradient and one evaluation per iteration (the last iteration may end at the gradient)
                DSIM_CHECK(v[1] == double(i) || (i == last && v[1] == double(i) - 1.), "wrong-log", w + "evaluations in " + str(L.log));
                DSIM_CHECK(v[2] == double(i), "wrong-log", w + "gradients in " + str(L.log));
            }
            if (i && !c.multi())
                DSIM_CHECK(!worse(log_best(c, L.log, i), log_best(c, L.log, i - 1)), "wrong-log", w + "best in " + str(L.log));
        }
        if (c.kind == GD) {
            const vd &v = L.log[last].first;
            const char *r = v[1] == double(last) - 1. ? "gradient" : v[4] < c.lrmin && v[4] < L.log[last - 1].first[4] ? "learning rate" : "iterations";
            DSIM_CHECK(told(r), "wrong-screen", w + "stopped by " + reason + " after " + str(L.log));
        }
        DSIM_CHECK(L.log[last].first[1] == double(L.fevals - f0), "wrong-log", w + "final evaluations in " + str(L.log));
        if (!c.multi() && quirk) {
        } else if (!c.multi()) {
            DSIM_CHECK(hc::same(log_best(c, L.log, 0), best_of(p0.get_f())), "wrong-log", w + "initial best in " + str(L.log));
            DSIM_CHECK(hc::same(log_best(c, L.log, last), best_of(L.f)), "wrong-log",
                       w + "final best in " + str(L.log) + " but the population has " + hc::str(best_of(L.f)));
        } else
            for (int k = 0; k < 2; ++k) {
                const auto &f = k ? L.f : p0.get_f();
                const vd &v = L.log[k ? last : 0].first;
                double mn = f[0][0];
                for (auto &e : f)
                    if (worse(mn, e[0])) mn = e[0];
                DSIM_CHECK(hc::same(v[2], mn), "wrong-log", w + "best loss in " + str(L.log) + " is " + hc::str(mn));
                if (finite(k ? pf : p0)) {
                    std::set<std::pair<double, double>> front;
                    double cmax = 0;
                    std::size_t cnt = 0;
                    for (auto &a : f) {
                        bool dom = false;
                        for (auto &b : f) dom |= dominates(b, a);
                        if (dom) continue;
                        ++cnt;
                        cmax = std::max(cmax, a[1]);
                        front.insert({a[0], a[1]});
                    }
                    DSIM_CHECK(v[3] >= double(front.size()) && v[3] <= double(cnt), "wrong-log", w + "front size in " + str(L.log));
                    DSIM_CHECK(v[4] == cmax, "wrong-log", w + "complexity in " + str(L.log) + " is " + hc::str(cmax));
                    dsim::probe("front-compared");
                }
            }
        if ((c.kind == ES || c.kind == MES) && !quirk) {
            // the model printed: at the start the champion, at the end (when unique) the new one
            const Sr s = q.build();
            auto model = [&](const Log &l, std::size_t i, const vd &x) {
                return hc::same(vd(l[i].first.begin() + 3, l[i].first.end()), vd(x.begin(), x.begin() + q.r.neph))
                       && l[i].second == s.prettier(x);
            };
            bool ok = false;
            for (unsigned i = 0; i < np; ++i)
                if (!worse(p0.get_f()[i][0], best_of(p0.get_f()))) ok |= model(L.log, 0, p0.get_x()[i]);
            DSIM_CHECK(ok, "wrong-log", w + "the first model is not the initial best: " + str(L.log));
            if (c.kind == MES || hc::same(best_of(L.f), best_of(p0.get_f())) == false) {
                ok = false;
                for (unsigned i = 0; i < np; ++i)
                    if (!worse(L.f[i][0], best_of(L.f))) ok |= model(L.log, last, L.x[i]);
                if (c.kind == MES) DSIM_CHECK(ok, "wrong-log", w + "the last model is not the best: " + str(L.log));
            }
        }
    }
    // verbosity changes nothing, and a sparser log is a part of the full one
    for (unsigned v : {0u, range(2, 8)}) {
        Cfg d = full;
        d.verb = v;
        const Out o = run(d);
        const std::string e = diff(L, o, false);
        DSIM_CHECK(e.empty(), "verbosity-matters", w + "verbosity " + std::to_string(v) + ": " + e);
        if (v == 0) {
            DSIM_CHECK(o.log.empty(), "wrong-log", w + "logged with no verbosity");
            continue;
        }
        std::size_t k = 0;
        for (std::size_t i = 0; i < L.log.size(); ++i) {
            const bool lastl = i + 1 == L.log.size();
            const bool due = i % v == 0 && !(lastl && !gd_idle);
            if (!due && !lastl) continue;
            DSIM_CHECK(k < o.log.size() && hc::same(o.log[k].first, L.log[i].first) && o.log[k].second == L.log[i].second,
                       "wrong-log", w + "verbosity " + std::to_string(v) + " gives " + str(o.log) + " of " + str(L.log));
            ++k;
        }
        DSIM_CHECK(k == o.log.size(), "wrong-log", w + "verbosity " + std::to_string(v) + " gives " + str(o.log) + " of " + str(L.log));
    }
    // a second call of the same algorithm logs that call alone
    if (chance(1, 4)) {
        Cfg d = full;
        d.gen = std::min(d.gen, 6u);
        screen([&] {
            with_algo(d, [&](const auto &a) {
                pagmo::population p(p0);
                evolve_with(a, p);
                const double start = best_of(p.get_f());
                const bool nan = !c.multi() && !std::isfinite(p.get_f()[p.best_idx()][0]);
                const Out o = evolve_with(a, p);
                DSIM_CHECK(gd_idle || nan || (!o.log.empty() && log_gen(o.log, 0) == 0. && o.log[0].first[1] == 0.), "wrong-log",
                           w + "the log of a second call " + str(o.log));
                DSIM_CHECK(c.kind == GD || o.log.size() == d.gen + 1u, "wrong-log", w + "the log of a second call " + str(o.log));
                if (c.kind == GD)
                    for (std::size_t i = 1; i < o.log.size(); ++i)
                        DSIM_CHECK(log_gen(o.log, i) == double(i), "wrong-log", w + "the log of a second call " + str(o.log));
                else if (!c.multi() && !nan && !o.log.empty())
                    DSIM_CHECK(hc::same(log_best(c, o.log, 0), start), "wrong-log", w + "the log of a second call " + str(o.log));
                return 0;
            });
        });
    }
    // stopping early: exactly when the criterion is met, whatever is logged
    if (c.kind != GD) {
        Cfg d = full;
        const double ref = log_best(c, L.log, pick(unsigned(L.log.size())));
        d.ftol = std::isfinite(ref) && ref >= 0. ? (chance(1, 2) ? ref + std::max(1e-3, ref * 0.125) : ref) : 1.;
        std::optional<Out> first;
        for (unsigned v : {1u, 0u, range(2, 8)}) {
            d.verb = v;
            const Out o = run(d);
            const double made = double(o.fevals - f0) / np; // generations
            for (std::size_t g = 1; g < L.log.size() && double(g) < made; ++g)
                DSIM_CHECK(!(log_best(c, L.log, g) < d.ftol), "wrong-stop",
                           w + "ftol " + hc::str(d.ftol) + " verbosity " + std::to_string(v) + ": went on after generation "
                               + std::to_string(g) + " of " + str(L.log) + " up to " + hc::str(made));
            DSIM_CHECK(made == double(c.gen) || log_best(c, L.log, std::size_t(made)) < d.ftol, "wrong-stop",
                       w + "ftol " + hc::str(d.ftol) + " verbosity " + std::to_string(v) + ": stopped at " + hc::str(made)
                           + " of " + str(L.log));
            if (v && made < c.gen) DSIM_CHECK(told("ftol"), "wrong-screen", w + "stopped by " + reason);
            if (v && !(log_best(c, L.log, std::size_t(made)) < d.ftol))
                DSIM_CHECK(!told("ftol"), "wrong-screen", w + "stopped by " + reason);
            if (v == 0) DSIM_CHECK(o.log.empty(), "wrong-log", w + "logged with no verbosity");
            else
                DSIM_CHECK(!o.log.empty() && log_gen(o.log, o.log.size() - 1) == made
                               && hc::same(log_best(c, o.log, o.log.size() - 1), log_best(c, L.log, std::size_t(made))),
                           "wrong-log", w + "last line of " + str(o.log) + " after " + hc::str(made) + " generations");
            if (v) { // line by line: one every v generations, and one at the end
                std::size_t k = 0;
                for (std::size_t g = 0; g <= std::size_t(made); ++g) {
                    if (g != std::size_t(made) && g % v) continue;
                    DSIM_CHECK(k < o.log.size() && hc::same(o.log[k].first, L.log[g].first) && o.log[k].second == L.log[g].second,
                               "wrong-log", w + "ftol " + hc::str(d.ftol) + " verbosity " + std::to_string(v) + " gives " + str(o.log)
                                   + " of " + str(L.log));
                    ++k;
                }
                DSIM_CHECK(k == o.log.size(), "wrong-log", w + "ftol " + hc::str(d.ftol) + " verbosity " + std::to_string(v)
                                                              + " gives " + str(o.log) + " of " + str(L.log));
            }
            if (!first) first = o;
            else {
                const std::string e = diff(*first, o, false);
                DSIM_CHECK(e.empty(), "verbosity-matters",
                           w + "ftol " + hc::str(d.ftol) + ", verbosity " + std::to_string(v) + ": " + e);
            }
            if (made < c.gen) dsim::probe("stopped-early");
        }
    }
    dsim::nontrivial();
}
// objects made without a seed take theirs from the library-wide source, like everybody else
void default_seeds()
{
    dsim::configure_schedule();
    const unsigned T = range(1, 3), per = range(1, 6), s = chance(1, 6) ? 0u : pick(100000);
    std::vector<std::vector<unsigned>> kinds(T);
    for (auto &k : kinds)
        for (unsigned i = 0; i < per; ++i) k.push_back(pick(7));
    auto history = [&](std::vector<std::vector<long>> &seen) {
        dcgp::random_device::set_seed(s);
        seen.assign(T, {});
        std::vector<std::function<void()>> bodies;
        for (unsigned t = 0; t < T; ++t)
            bodies.push_back([&, t] {
                for (unsigned k : kinds[t]) {
                    unsigned v = 0;
                    switch (k) {
                        case 0: v = dcgp::es4cgp().get_seed(); break;
                        case 1: v = dcgp::moes4cgp().get_seed(); break;
                        case 2: v = dcgp::mes4cgp().get_seed(); break;
                        case 3: v = dcgp::momes4cgp().get_seed(); break;
                        case 4: v = dcgp::es4cgp(3u, 2u, 0.5, false).get_seed(); break;
                        case 5: {
                            // the seed of an expression cannot be read: its encoding and its mutations tell
                            dcgp::expression<double> e(2u, 1u, 2u, 5u, 6u, 2u, dcgp::kernel_set<double>({"sum", "mul"})());
                            dsim::Quiet q;
                            seen[t].push_back(-2);
                            for (unsigned g : e.get()) seen[t].push_back(-3 - long(g));
                            e.mutate_random(3u);
                            for (unsigned g : e.get()) seen[t].push_back(-3 - long(g));
                            continue;
                        }
                        default: v = dcgp::random_device::next();
                    }
                    dsim::Quiet q;
                    seen[t].push_back(long(v));
                }
            });
        dsim::run_threads(bodies);
    };
    std::vector<std::vector<long>> seen, again;
    history(seen);
    std::multimap<unsigned, unsigned> where;
    {
        std::mt19937 e(s);
        for (unsigned i = 0; i < 2 * T * per + 16; ++i) where.emplace(unsigned(e()), i);
    }
    std::set<long> all;
    for (auto &th : seen) {
        long last = -1;
        for (long v : th) {
            if (v < 0) continue;
            const auto f = where.find(unsigned(v));
            DSIM_CHECK(f != where.end(), "not-linearizable", "a default seed is not among the next numbers of the sequence");
            DSIM_CHECK(all.insert(v).second || where.count(unsigned(v)) > 1, "not-linearizable", "two objects got the same seed");
            DSIM_CHECK(long(f->second) > last || where.count(unsigned(v)) > 1, "not-linearizable", "a thread got its seeds in the wrong order");
            last = long(f->second);
        }
    }
    if (T == 1) {
        history(again);
        DSIM_CHECK(seen == again, "not-linearizable", "after the same re-seed the same history gave other seeds");
    }
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(C01, default_seeds, 1) { default_seeds(); }
DSIM_SCENARIO(C05, batches, 3) { batches(false); }
DSIM_SCENARIO(C05, failing_batches, 2) { batches(true); }
DSIM_SCENARIO(C06, repeated, 2) { reproducible(); }
DSIM_SCENARIO(C06, concurrent, 2) { reproducible_threads(); }
DSIM_SCENARIO(E05, any_kernels, 3) { truth(0); }
DSIM_SCENARIO(E05, smooth_kernels, 3) { truth(1); }
DSIM_SCENARIO(E05, failing_kernel, 2) { truth(2); }
DSIM_SCENARIO(E05, refused, 1) { refused(); }
DSIM_SCENARIO(E06, logs, 1) { logs(); }
