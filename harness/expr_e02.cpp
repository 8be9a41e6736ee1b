// E02: mutation contracts
#include "expr.hpp"

namespace
{
// ---- E02 -----------------------------------------------------------------------------------------
// Draws every mutation from the current state and checks which genes moved.
void contracts()
{
    Ref r = make_ref(false, true);
    Ex e = make_ex(r, pick(1000));
    const unsigned n = range(2, 14);
    for (unsigned it = 0; it < n; ++it) {
        if (chance(1, 4)) {
            r.x = hc::rnd_chrom(r.lb, r.ub);
            e.set(r.x);
        }
        const vu x0 = e.get();
        const auto an0 = r.s.active_nodes(x0);
        const auto ag0 = r.s.active_genes(x0);
        const vd p = hc::rnd_vd(r.s.n - r.neph, -2, 2);
        const vd y0 = e(p);
        const unsigned N = chance(1, 8) ? range(6, 40) : range(0, 5);
        const unsigned op = pick(8);
        vu ids;
        Ex twin(e); // an identical object must make identical choices
        const char *name = "?";
        auto act = [&](Ex &q) {
            switch (op) {
                case 0: name = "mutate"; q.mutate(ids[0]); break;
                case 1: name = "mutate(list)"; q.mutate(ids); break;
                case 2: name = "mutate_random"; q.mutate_random(N); break;
                case 3: name = "mutate_inactive"; q.mutate_inactive(N); break;
                case 4: name = "mutate_active"; q.mutate_active(N); break;
                case 5: name = "mutate_active_fgene"; q.mutate_active_fgene(N); break;
                case 6: name = "mutate_active_cgene"; q.mutate_active_cgene(N); break;
                default: name = "mutate_ogene"; q.mutate_ogene(N);
            }
        };
        if (op < 2)
            for (unsigned i = 0, k = op == 0 ? 1 : range(0, 5); i < k; ++i) ids.push_back(pick(unsigned(x0.size())));
        act(e);
        act(twin);
        const std::string w = std::string(name) + " N=" + std::to_string(N) + " [" + r.s.str() + "] from " + hc::str(x0)
                              + " to " + hc::str(e.get()) + ": ";
        DSIM_CHECK(e.get() == twin.get(), "not-reproducible", w + "two identical objects mutated differently");
        const vu &x1 = e.get();
        vu ch;
        for (unsigned i = 0; i < x0.size(); ++i) {
            DSIM_CHECK(x1[i] >= r.lb[i] && x1[i] <= r.ub[i], "gene-out-of-bounds", w + "gene " + std::to_string(i));
            if (x0[i] != x1[i]) ch.push_back(i);
        }
        const unsigned lim = op == 0 ? 1u : op == 1 ? unsigned(ids.size()) : N;
        DSIM_CHECK(ch.size() <= lim, "too-many-mutations", w + std::to_string(ch.size()) + " genes changed");
        auto mutable_gene = [&](unsigned g) { return r.lb[g] < r.ub[g]; };
        if (op < 2) {
            for (unsigned g : ch)
                DSIM_CHECK(std::count(ids.begin(), ids.end(), g) > 0, "wrong-gene-mutated", w + "gene " + std::to_string(g));
            for (unsigned g : ids)
                DSIM_CHECK(std::count(ids.begin(), ids.end(), g) > 1 || !mutable_gene(g) || x1[g] != x0[g],
                           "mutation-without-effect", w + "gene " + std::to_string(g) + " kept its value");
        }
        for (unsigned g : ch) {
            const auto k = r.s.kind(g);
            if (op == 3) DSIM_CHECK(!ag0.count(g), "wrong-gene-mutated", w + "gene " + std::to_string(g) + " is active");
            if (op == 4 || op == 5)
                DSIM_CHECK(ag0.count(g), "wrong-gene-mutated", w + "gene " + std::to_string(g) + " is not active");
            if (op == 6 && N == 1)
                DSIM_CHECK(ag0.count(g), "wrong-gene-mutated", w + "gene " + std::to_string(g) + " is not active");
            if (op == 5) DSIM_CHECK(k == Shape::F, "wrong-gene-mutated", w + "gene " + std::to_string(g) + " is no function gene");
            if (op == 6) DSIM_CHECK(k == Shape::C, "wrong-gene-mutated", w + "gene " + std::to_string(g) + " is no connection gene");
            if (op == 7) DSIM_CHECK(k == Shape::O, "wrong-gene-mutated", w + "gene " + std::to_string(g) + " is no output gene");
        }
        const bool has_fn = !an0.empty() && *an0.rbegin() >= r.s.n;
        if (op == 5 && N == 1 && has_fn && r.s.nk > 1)
            DSIM_CHECK(ch.size() == 1, "mutation-without-effect", w + "no function gene changed");
        if (op == 7 && N >= 1 && r.s.m == 1 && mutable_gene(unsigned(x0.size()) - 1))
            DSIM_CHECK(ch.size() == 1, "mutation-without-effect", w + "the output gene did not change");
        if (op == 3) {
            DSIM_CHECK(hc::same(e(p), y0), "inactive-mutation-visible", w + "the outputs changed");
            DSIM_CHECK(r.s.active_genes(x1) == ag0, "inactive-mutation-visible", w + "the active genes changed");
        }
        r.x = x1;
        check_invariants(e, r, name);
        dsim::event(name, ch.size(), N, ch.empty() ? 0 : ch[0]);
    }
    dsim::nontrivial();
}
// Repeated single mutations reach every eligible (gene, value): each eligible pair has a known probability under the
// documented uniform choice, and enough draws are made that missing one has probability below 1e-12.
void reach()
{
    Ref r = make_ref(false, true, true);
    Ex e = make_ex(r, pick(100000));
    r.x = hc::rnd_chrom(r.lb, r.ub);
    e.set(r.x);
    const vu x0 = r.x;
    const auto an = r.s.active_nodes(x0);
    const auto ag = r.s.active_genes(x0);
    const unsigned op = pick(6);
    vu elig;
    unsigned fn_nodes = 0;
    for (unsigned v : an) fn_nodes += v >= r.s.n;
    double pmin = 1.;
    for (unsigned g = 0; g < x0.size(); ++g) {
        if (r.lb[g] == r.ub[g]) continue;
        const auto k = r.s.kind(g);
        double p = 0;
        switch (op) {
            case 0: p = 1. / x0.size(); break;                                  // mutate_random
            case 1: p = ag.count(g) ? 0 : 1. / x0.size(); break;                // mutate_inactive
            case 2: p = ag.count(g) ? 1. / ag.size() : 0; break;                // mutate_active
            case 3: p = ag.count(g) && k == Shape::F ? 1. / fn_nodes : 0; break; // fgene
            case 4: p = ag.count(g) && k == Shape::C ? 1. / fn_nodes / 3. : 0; break;
            default: p = k == Shape::O ? 1. / r.s.m : 0;
        }
        if (p <= 0) continue;
        elig.push_back(g);
        pmin = std::min(pmin, p / (r.ub[g] - r.lb[g]));
    }
    const unsigned K = unsigned(36. / pmin) + 1;
    if (elig.empty() || K > 12000) return;
    std::set<std::pair<unsigned, unsigned>> seen;
    dsim::Atomic at;
    for (unsigned i = 0; i < K; ++i) {
        e.set(x0);
        switch (op) {
            case 0: e.mutate_random(1); break;
            case 1: e.mutate_inactive(1); break;
            case 2: e.mutate_active(1); break;
            case 3: e.mutate_active_fgene(1); break;
            case 4: e.mutate_active_cgene(1); break;
            default: e.mutate_ogene(1);
        }
        for (unsigned g = 0; g < x0.size(); ++g)
            if (e.get()[g] != x0[g]) seen.insert({g, e.get()[g]});
    }
    for (unsigned g : elig)
        for (unsigned v = r.lb[g]; v <= r.ub[g]; ++v)
            DSIM_CHECK(v == x0[g] || seen.count({g, v}), "unreachable-value",
                       "mutation kind " + std::to_string(op) + " never produced value " + std::to_string(v) + " of gene "
                           + std::to_string(g) + " in " + std::to_string(K) + " draws [" + r.s.str() + " x="
                           + hc::str(x0) + "]");
    dsim::event("reach", op, K, seen.size());
    dsim::nontrivial();
}
// same seed, same construction, same sequence
void seeds()
{
    Ref r = make_ref(false, true);
    const unsigned seed = pick(100000);
    auto ks = kernels(r);
    Ex a(r.s.n - r.neph, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, ks, r.neph, seed);
    if (chance(1, 2)) dcgp::random_device::set_seed(pick(50)); // not involved
    Ex b(r.s.n - r.neph, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, ks, r.neph, seed);
    auto eq = [&](const char *w) {
        DSIM_CHECK(a.get() == b.get() && hc::same(a.get_eph_val(), b.get_eph_val()), "not-reproducible", w);
    };
    eq("two constructions from one seed differ");
    const vu xs = a.get();
    for (unsigned i = 0, n = range(1, 6); i < n; ++i) {
        const unsigned k = pick(5);
        for (Ex *q : {&a, &b}) {
            if (k == 0) q->mutate_random(3);
            if (k == 1) q->mutate_active(2);
            if (k == 2) q->mutate_inactive(3);
            if (k == 3) q->mutate_active_cgene(2);
            if (k == 4) q->mutate_ogene(2);
        }
        dcgp::random_device::next();
        eq("two objects with one seed diverged");
    }
    // re-seeding restarts the sequence
    const unsigned s2 = pick(1000);
    const vu base = a.get();
    a.seed(s2);
    a.mutate_random(5);
    const vu first = a.get();
    a.mutate_random(4);
    a.set(base);
    a.seed(s2);
    a.mutate_random(5);
    DSIM_CHECK(a.get() == first, "not-reproducible", "re-seeding did not restart the sequence of mutations");
    dsim::event("seeds", seed, a.get()[0]);
    dsim::nontrivial();
}

} // namespace

DSIM_SCENARIO(E02, contracts, 5) { contracts(); }
DSIM_SCENARIO(E02, reach, 2) { reach(); }
DSIM_SCENARIO(E02, seeds, 1) { seeds(); }
