// E08: what an evolution tries, and what it keeps; E07: the learning step of everything it tries
#include "newton.hpp"

namespace
{
struct Trial {
    vd x, f;
};
std::vector<Trial> &tape()
{
    static std::vector<Trial> t;
    return t;
}
// a symbolic regression problem that remembers every candidate it is asked about
struct Watched : Sr {
    Watched() = default;
    explicit Watched(Sr s) : Sr(std::move(s)) {}
    vd fitness(const vd &x) const
    {
        vd f = Sr::fitness(x);
        dsim::Quiet quiet;
        tape().push_back({x, f});
        return f;
    }
};
// the algorithms reach the problem through a hook meant to be replaced
void watch()
{
    dcgp::details::extract_sr_cpp_py = [](const pagmo::problem &p) -> const Sr * {
        if (const auto *w = p.extract<Watched>()) return w;
        return p.extract<Sr>();
    };
}
bool less(double a, double b) // as pagmo orders losses
{
    return std::isnan(a) ? false : std::isnan(b) || a < b;
}
struct Lineage {
    const Cfg &c;
    const PRef &q;
    std::string w;
    unsigned lo, genes = 0, open = 0;
    std::size_t tried = 0, sampled = 0, up = 0, apart = 0, several = 0, pairs = 0;
    double sxy = 0, sxx = 0, syy = 0; // perturbations of consecutive siblings
    std::vector<std::size_t> moved; // candidates by the number of genes that differ from the parent
    Lineage(const Cfg &c_, const PRef &q_)
        : c(c_), q(q_), w(c_.str() + " [" + q_.str() + "]: "), lo(c_.kind == MOMES ? 0 : 1), moved(c_.mut + 1, 0)
    {
        genes = unsigned(q.r.lb.size());
        for (unsigned i = 0; i < genes; ++i) open += q.r.lb[i] < q.r.ub[i];
    }
    unsigned distance(const vd &p, const vd &x) const
    {
        unsigned d = 0;
        for (std::size_t i = q.r.neph; i < x.size(); ++i) d += p[i] != x[i];
        return d;
    }
    // whether x can be a mutated copy of p
    bool child(const vd &p, const vd &x, std::string *why) const
    {
        const unsigned d = distance(p, x);
        if (d > c.mut) {
            *why = std::to_string(d) + " genes differ";
            return false;
        }
        if (c.batch())
            for (unsigned i = 0; i < q.r.neph; ++i) {
                if (c.learn && std::fabs(p[i]) < 1e6 && p[i] == x[i]) *why = "a constant was not perturbed";
                else if (!c.learn && !hc::same(p[i], x[i])) *why = "a constant was changed";
                else continue;
                return false;
            }
        return true;
    }
    void born(const vd &p, const vd &x)
    {
        ++tried;
        ++moved[distance(p, x)];
        if (!c.batch() || !c.learn) return;
        for (unsigned i = 0; i < q.r.neph; ++i) {
            if (!(std::fabs(p[i]) < 1e6)) continue;
            ++sampled;
            up += x[i] > p[i];
            if (i) apart += x[i] - p[i] != x[0] - p[0];
        }
    }
    // the perturbations of consecutive siblings
    void siblings(const vd &p0, const vd &x0, const vd &p1, const vd &x1)
    {
        if (!c.batch() || !c.learn) return;
        for (unsigned i = 0; i < q.r.neph; ++i) {
            if (!(std::fabs(p0[i]) < 1e6 && std::fabs(p1[i]) < 1e6)) continue;
            const double u = x0[i] - p0[i], v = x1[i] - p1[i];
            ++pairs, sxy += u * v, sxx += u * u, syy += v * v;
        }
    }
    // all children come from one of the possible parents
    void all_from(const std::vector<vd> &ps, const Trial *t, std::size_t n)
    {
        std::string why;
        for (auto &p : ps) {
            bool ok = true;
            for (std::size_t i = 0; i < n && ok; ++i) ok = child(p, t[i].x, &why);
            if (!ok) continue;
            for (std::size_t i = 0; i < n; ++i) born(p, t[i].x);
            if (ps.size() == 1) // among equals it is not known which one was mutated
                for (std::size_t i = 1; i < n; ++i) siblings(p, t[i - 1].x, p, t[i].x);
            crowd(t, n);
            return;
        }
        std::string s;
        for (std::size_t i = 0; i < n; ++i) s += hc::str(t[i].x);
        dsim::violation("wrong-parent", w + why + ": the candidates " + s + " are not mutations of " + hc::str(ps[0]));
    }
    // every child comes from a parent of its own
    void each_from(const std::vector<vd> &ps, const Trial *t, std::size_t n)
    {
        std::string why;
        std::vector<long> owner(ps.size(), -1);
        std::vector<char> seen;
        std::function<bool(std::size_t)> place = [&](std::size_t i) {
            for (std::size_t k = 0; k < ps.size(); ++k) {
                const std::size_t p = (i + k) % ps.size();
                if (seen[p] || !child(ps[p], t[i].x, &why)) continue;
                seen[p] = 1;
                if (owner[p] < 0 || place(std::size_t(owner[p]))) {
                    owner[p] = long(i);
                    return true;
                }
            }
            return false;
        };
        for (std::size_t i = 0; i < n; ++i) {
            seen.assign(ps.size(), 0);
            DSIM_CHECK(place(i), "wrong-parent", w + why + ": no parent is left for the candidate " + hc::str(t[i].x));
        }
        for (std::size_t p = 0; p < ps.size(); ++p)
            if (owner[p] >= 0) born(ps[p], t[owner[p]].x);
        std::vector<std::size_t> parent(n);
        for (std::size_t p = 0; p < ps.size(); ++p)
            if (owner[p] >= 0) parent[std::size_t(owner[p])] = p;
        auto only = [&](std::size_t i) { // whether no other parent is possible
            unsigned k = 0;
            for (auto &p : ps) k += child(p, t[i].x, &why);
            return k == 1;
        };
        for (std::size_t i = 1; i < n; ++i)
            if (only(i - 1) && only(i)) siblings(ps[parent[i - 1]], t[i - 1].x, ps[parent[i]], t[i].x);
        crowd(t, n);
    }
    void crowd(const Trial *t, std::size_t n)
    {
        for (std::size_t i = 1; i < n; ++i) several += distance(t[0].x, t[i].x) > 0;
    }
    // over many candidates everything that should happen does
    void overall() const
    {
        const double frac = double(open) / genes;
        if (frac > 0.4 && double(tried) > 80.) {
            DSIM_CHECK(moved[0] < tried, "no-mutation", w + "none of " + std::to_string(tried) + " candidates was mutated");
            DSIM_CHECK(several > 0, "no-mutation", w + "all candidates of a generation are the same, always");
        }
        double p = 1. / double(c.mut - lo + 1);
        for (unsigned k = 0; k < c.mut; ++k) p *= k < open ? double(open - k) / genes : 0.;
        if (p * double(tried) > 60.) {
            DSIM_CHECK(moved[c.mut] > 0, "no-mutation",
                       w + "none of " + std::to_string(tried) + " candidates has " + std::to_string(c.mut) + " mutations");
            dsim::probe("largest-mutation-seen");
        }
        if (sampled > 64) {
            DSIM_CHECK(up > 0 && up < sampled, "no-mutation", w + "constants always move in one direction");
            DSIM_CHECK(q.r.neph < 2 || apart > 0, "no-mutation", w + "all constants move together");
            dsim::probe("perturbations-sampled");
        }
        if (pairs >= 100 && sxx > 0 && syy > 0) { // 0.6 is seven standard deviations away
            const double cor = sxy / std::sqrt(sxx * syy);
            DSIM_CHECK(cor < 0.6, "no-mutation", w + "the perturbations of consecutive candidates have correlation " + hc::str(cor));
            dsim::probe("siblings-compared");
        }
    }
};
// the population holds what was there or what was tried
void check_members(const Out &now, const std::vector<vd> &x0, const std::vector<vd> &f0, const std::string &w)
{
    for (std::size_t i = 0; i < now.x.size(); ++i) {
        bool ok = false;
        for (std::size_t k = 0; k < x0.size() && !ok; ++k) ok = hc::same(x0[k], now.x[i]) && hc::same(f0[k], now.f[i]);
        for (auto &t : tape())
            if (ok) break;
            else ok = hc::same(t.x, now.x[i]) && hc::same(t.f, now.f[i]);
        DSIM_CHECK(ok, "not-tried", w + "individual " + hc::str(now.x[i]) + hc::str(now.f[i]) + " was neither there nor tried");
    }
}
std::string sorted_worse(std::vector<vd> a, std::vector<vd> b)
{
    auto by = [](const vd &u, const vd &v) { return less(u[0], v[0]); };
    std::sort(a.begin(), a.end(), by);
    std::sort(b.begin(), b.end(), by);
    for (std::size_t i = 0; i < a.size(); ++i)
        if (less(b[i][0], a[i][0]))
            return "the individual ranked " + std::to_string(i) + " had " + hc::str(b[i][0]) + ", now " + hc::str(a[i][0]);
    return "";
}
bool dominates(const vd &a, const vd &b)
{
    bool strict = false;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (a[i] > b[i]) return false;
        strict |= a[i] < b[i];
    }
    return strict;
}
bool finite(const std::vector<vd> &f)
{
    for (auto &v : f)
        for (double u : v)
            if (!std::isfinite(u)) return false;
    return true;
}
// the learning step of a candidate: its constants come from those of one of the parents
void check_learning(const Lineage &l, const Sr &fresh, const std::vector<vd> &ps, const Trial *t, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i) {
        bool ok = false;
        std::string why;
        for (auto &p : ps) {
            if (l.distance(p, t[i].x) > l.c.mut) continue;
            vd from = t[i].x;
            std::copy(p.begin(), p.begin() + l.q.r.neph, from.begin());
            const Newton e = explain(fresh, l.q.r.neph, from, t[i].x);
            ok = e.why.empty();
            if (ok) {
                if (e.decided) dsim::probe(e.moved ? "step-taken" : "step-refused");
                break;
            }
            why = e.why;
        }
        if (!why.empty() || ok) DSIM_CHECK(ok, "wrong-step", l.w + why + " (candidate " + hc::str(t[i].x) + ")");
    }
}
void lineage(bool learning, int kernels)
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 3));
    watch();
    Cfg c = rnd_cfg(learning ? (chance(1, 2) ? MES : MOMES) : int(pick(4)), 8);
    c.verb = pick(3);
    PRef q = rnd_problem(c, kernels, c.multi()); // prefixes are compared: no sums in a scheduled order
    if (learning && q.r.neph < 2) {
        const unsigned add = range(1, 2);
        q.r.neph += add;
        q.r.s.n += add;
        q.r.s.bounds(q.r.lb, q.r.ub);
    }
    if (kernels == 2) q.r.limit = double(range(10, 100));
    const bool many = kernels != 2 && !learning && chance(1, 8);
    unsigned np = rnd_np(2, 6);
    if (many) {
        np = range(6, 8);
        c.gen = c.kind == MOES ? range(7, 9) : c.kind == MOMES ? range(5, 6) : c.kind == MES ? range(18, 24) : range(35, 50);
        c.mut = range(1, 3);
        c.verb = 0;
        c.ftol = 0.;
        q.X.resize(1);
        q.Y.resize(1);
        q.par = 0;
    } else if (c.multi() && c.gen > 4)
        c.gen = 4;
    if (c.batch() && chance(1, 2)) c.bfe = q.level() > 0 ? range(DEFAULT_BFE, CROWD_BFE) : int(ORDER_BFE);
    std::optional<pagmo::population> pp;
    try {
        dsim::Quiet quiet;
        pp.emplace(pagmo::problem(Watched(q.build())), np, pick(1000));
        if (learning)
            for (unsigned i = 0; i < np; ++i) {
                vd x = pp->get_x()[i];
                for (unsigned k = 0; k < q.r.neph; ++k) x[k] = double(range(0, 64)) / 4. - 8.;
                pp->set_x(i, x);
            }
    } catch (const bad_point &) {
        return;
    }
    std::optional<Sr> fresh;
    if (learning) {
        dsim::Quiet quiet;
        PRef s = q;
        s.par = 0;
        s.r.limit = 1e300;
        fresh.emplace(s.build());
    }
    Lineage l(c, q);
    const long oom = !many && dsim::fchance(1, 10) ? long(dsim::fpick(4000)) : -1;
    const Out old = snapshot(*pp);
    auto run = [&](unsigned gen, long fault, Out &o) {
        Cfg d = c;
        d.gen = gen;
        pagmo::population p(*pp);
        tape().clear();
        bool fired = false;
        o = evolve(d, p, fault, &fired);
        if (o.err) {
            DSIM_CHECK((o.err == 3 && kernels == 2) || (o.err == 1 && fired), "wrong-error", l.w + o.what);
            dsim::fault_fired(o.err == 3 ? "failed-evaluation" : "evolve-out-of-memory");
        }
        dsim::event("evolved", o.f.empty() ? 0 : dsim::bits(o.f[0][0]), o.fevals, std::uint64_t(o.err) * 1000 + tape().size());
        return !fired || o.err; // a fault survived by a retry somewhere: the tape is not complete
    };
    if (!c.multi()) {
        Out now;
        if (!run(c.gen, oom, now)) return;
        dsim::Quiet quiet;
        const auto &T = tape();
        if (!now.err)
            DSIM_CHECK(T.size() % np == 0 && now.fevals - old.fevals == T.size(), "evaluation-count",
                       l.w + std::to_string(T.size()) + " candidates, " + std::to_string(now.fevals - old.fevals) + " evaluations");
        double best = old.f[0][0];
        for (auto &f : old.f)
            if (less(f[0], best)) best = f[0];
        std::vector<vd> parents;
        for (unsigned i = 0; i < np; ++i)
            if (!less(best, old.f[i][0])) parents.push_back(old.x[i]);
        bool nan = false;
        for (auto &f : old.f) nan |= std::isnan(f[0]); // which is then the best is up to pagmo
        if (nan) {
            parents.assign(1, pp->get_x()[pp->best_idx()]);
            best = pp->get_f()[pp->best_idx()][0];
        }
        for (std::size_t at = 0; at < T.size(); at += np) {
            const std::size_t n = std::min<std::size_t>(np, T.size() - at);
            if (!learning) l.all_from(parents, &T[at], n);
            else {
                check_learning(l, *fresh, parents, &T[at], n);
                for (std::size_t i = 0; i < n; ++i) {
                    bool ok = false;
                    for (auto &p : parents) ok |= l.distance(p, T[at + i].x) <= c.mut;
                    if (!ok) return; // not for this property to say
                }
            }
            if (n < np) break;
            // the next parent
            double nb = best;
            bool any = false;
            for (unsigned i = 0; i < np; ++i) {
                const double f = T[at + i].f[0];
                const bool take = c.kind == ES ? !less(nb, f) : less(f, nb);
                any |= take;
                if (take) nb = f;
            }
            if (any) {
                parents.clear();
                for (unsigned i = 0; i < np; ++i)
                    if (hc::same(T[at + i].f[0], nb)) parents.push_back(T[at + i].x);
                dsim::probe("parent-replaced");
            }
            best = nb;
        }
        if (learning) {
            dsim::nontrivial();
            return;
        }
        l.overall();
        if (!now.err) {
            check_members(now, old.x, old.f, l.w);
            const std::string e = sorted_worse(now.f, old.f);
            DSIM_CHECK(e.empty(), "lost-best", l.w + e);
            bool there = nan;
            for (auto &f : now.f) there |= hc::same(f[0], best);
            DSIM_CHECK(there, "lost-best", l.w + "the best tried has " + hc::str(best) + ", the population does not have it");
        }
        if (!T.empty()) dsim::nontrivial();
        return;
    }
    // several objectives: runs of 1, 2, ... generations from the same start
    Out before = old;
    for (unsigned g = 1; g <= c.gen; ++g) {
        Out now;
        if (!run(g, g == c.gen ? oom : -1, now)) return;
        dsim::Quiet quiet;
        const auto &T = tape();
        const std::size_t from = std::size_t(g - 1) * np;
        if (!now.err)
            DSIM_CHECK(T.size() % np == 0 && now.fevals - old.fevals == T.size(), "evaluation-count",
                       l.w + std::to_string(T.size()) + " candidates, " + std::to_string(now.fevals - old.fevals) + " evaluations");
        if (T.size() <= from) {
            // stopped early, or failed in an earlier generation
            if (!now.err) {
                double ideal = INFINITY;
                for (auto &f : before.f)
                    if (!std::isnan(f[0])) ideal = std::min(ideal, f[0]);
                DSIM_CHECK(c.ftol > 0. && ideal < c.ftol, "stopped", l.w + "nothing tried in generation " + std::to_string(g));
            }
            break;
        }
        const std::size_t n = T.size() - from;
        DSIM_CHECK(n <= np, "evaluation-count", l.w + std::to_string(n) + " candidates in generation " + std::to_string(g));
        if (learning) check_learning(l, *fresh, before.x, &T[from], n);
        else l.each_from(before.x, &T[from], n);
        dsim::nontrivial();
        if (now.err) break;
        if (!learning) {
            check_members(now, before.x, before.f, l.w);
            // no better compromise is lost
            std::vector<vd> all(before.f);
            for (std::size_t i = 0; i < n; ++i) all.push_back(T[from + i].f);
            if (finite(all)) {
                std::vector<vd> front;
                for (auto &a : all) {
                    bool dom = false;
                    for (auto &b : all) dom |= dominates(b, a);
                    if (!dom) front.push_back(a);
                }
                for (auto &f : now.f) {
                    bool in_front = false, dom = false;
                    for (auto &a : front) {
                        in_front |= hc::same(a, f);
                        dom |= dominates(a, f);
                    }
                    if (front.size() >= np && c.kind == MOES)
                        DSIM_CHECK(in_front, "lost-best", l.w + "a survivor with " + hc::str(f) + " is dominated though the front fills the population");
                }
                if (front.size() <= np)
                    for (auto &a : front) {
                        bool kept = false;
                        for (auto &f : now.f) kept |= hc::same(a, f);
                        DSIM_CHECK(kept, "lost-best", l.w + "the compromise " + hc::str(a) + " of generation " + std::to_string(g) + " was lost");
                    }
                dsim::probe(front.size() <= np ? "front-kept" : "front-cut");
            }
        }
        before = now;
    }
    if (!learning) l.overall();
}
} // namespace

DSIM_SCENARIO(E08, any_kernels, 3) { lineage(false, 0); }
DSIM_SCENARIO(E08, smooth_kernels, 2) { lineage(false, 1); }
DSIM_SCENARIO(E08, failing_kernel, 1) { lineage(false, 2); }
DSIM_SCENARIO(E07, every_candidate, 2) { lineage(true, chance(3, 4) ? 1 : 0); }
DSIM_SCENARIO(E07, every_candidate_failing, 1) { lineage(true, 2); }
