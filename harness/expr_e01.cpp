// E01: invariants and meaning of an expression over any history
#include "expr.hpp"

namespace
{
template <typename E>
void history(E &e, Ref &r)
{
    check_invariants(e, r, "construction");
    check_eval(e, r, "construction");
    check_formula(e, r, "construction");
    const unsigned n = range(2, 16);
    for (unsigned i = 0; i < n; ++i) {
        const bool fault = dsim::fchance(1, 6);
        if (fault) { // running out of memory may abort an operation; a later successful set restores everything
            const std::uint64_t k = dsim::fpick(12);
            Ref rr = r;
            const vu x = hc::rnd_chrom(r.lb, r.ub);
            const unsigned which = pick(4);
            const int res = hc::with_alloc_fault(k, [&] {
                if (which == 0) e.set(x);
                else if (which == 1) e.mutate_random(3);
                else if (which == 2) e.mutate_active(2);
                else {
                    E c(e);
                    e(vd(r.s.n - r.neph, 0.5));
                }
            });
            DSIM_CHECK(res != 2, "unexpected-exception", "memory exhaustion surfaced as another exception");
            if (which == 3) {
                check_invariants(e, r, "after a copy or evaluation that ran out of memory");
            } else {
                DSIM_CHECK(e.get().size() == r.x.size(), "wrong-chromosome", "length after a failed operation");
                if (res) dsim::probe("operation-failed-by-alloc");
                const vu y = hc::rnd_chrom(r.lb, r.ub);
                e.set(y);
                r.x = y;
                check_invariants(e, r, "set after an operation that ran out of memory");
            }
            check_eval(e, r, "after an allocation failure");
        }
        const char *nm = step(e, r);
        dsim::event(nm, i);
        check_invariants(e, r, nm);
        if (chance(1, 2)) check_eval(e, r, nm);
        if (chance(1, 2)) check_formula(e, r, nm);
        if (chance(1, 4)) check_description(e, r, nm);
    }
    check_eval(e, r, "end");
    dsim::nontrivial();
}

// the same chromosome means the same thing for every numeric type
void other_types()
{
    Ref r = make_ref(false, true);
    Ex e = make_ex(r, 5u);
    using G = audi::gdual_d;
    dcgp::kernel_set<G> ks(hc::kernel_names(r.ks));
    dcgp::expression<G> g(r.s.n - r.neph, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, ks(), r.neph, 5u);
    std::vector<G> ge;
    for (double v : r.eph) ge.push_back(G(v));
    g.set_eph_val(ge);
    for (unsigned i = 0, n = range(1, 4); i < n; ++i) {
        const vu x = hc::rnd_chrom(r.lb, r.ub);
        g.set(x);
        r.x = x;
        DSIM_CHECK(g.get_lb() == r.lb && g.get_ub() == r.ub, "wrong-bounds", "dual expression");
        const vd p = hc::rnd_vd(r.s.n - r.neph, -2, 2);
        std::vector<G> gp;
        const bool dual = chance(1, 2);
        for (unsigned j = 0; j < p.size(); ++j)
            gp.push_back(dual ? G(p[j], "x" + std::to_string(j), 1) : G(p[j]));
        double mag = 0;
        const vd want = r.eval(p, &mag);
        const auto got = g(gp);
        for (unsigned j = 0; j < r.s.m; ++j)
            DSIM_CHECK(mag > 1e6 || hc::close(got[j].constant_cf(), want[j], 1e-8), "wrong-value",
                       "dual evaluation " + hc::str(got[j].constant_cf()) + " expected " + hc::str(want[j]));
        dsim::event("dual", dsim::bits(want[0]));
    }
    dsim::nontrivial();
}
// a kernel that evaluates and prints an expression of its own
struct Inner {
    Ex e;
    double operator()(const vd &a) const
    {
        vd p(e.get_n());
        for (std::size_t i = 0; i < p.size(); ++i) p[i] = a[i % a.size()];
        double t = 0;
        for (double v : e(p)) t += v;
        return t + a[0];
    }
    std::string operator()(const std::vector<std::string> &a) const
    {
        std::vector<std::string> p(e.get_n());
        for (std::size_t i = 0; i < p.size(); ++i) p[i] = a[i % a.size()];
        std::string t = "(";
        for (auto &v : e(p)) t += v + "+";
        return t + a[0] + ")";
    }
};
void nested()
{
    auto in = std::make_shared<Ref>(make_ref(false, true, true));
    in->s.n -= in->neph;
    in->neph = 0;
    in->s.bounds(in->lb, in->ub);
    Ex ie = make_ex(*in, pick(100));
    ie.mutate_random(pick(6));
    adopt(*in, ie);
    const bool weighted = chance(1, 3);
    Ref r = make_ref(weighted, true, chance(1, 2));
    r.inner = in;
    std::vector<unsigned> own(r.ks.size() + 1, 0);
    own[pick(unsigned(own.size()))] = 1;
    std::vector<unsigned> ks;
    std::vector<dcgp::kernel<double>> f;
    for (unsigned i = 0, j = 0; i < own.size(); ++i)
        if (own[i]) {
            ks.push_back(1002u);
            f.emplace_back(Inner{ie}, Inner{ie}, "inner");
        } else {
            ks.push_back(r.ks[j]);
            f.emplace_back(kernels(r)[j++]);
        }
    r.ks = ks;
    r.s.nk = unsigned(ks.size());
    r.s.bounds(r.lb, r.ub);
    auto go = [&](auto &e) {
        const unsigned n = range(1, 6);
        for (unsigned i = 0; i < n; ++i) {
            adopt(r, e);
            check_eval(e, r, "an expression of expressions");
            check_formulas(r, "an expression of expressions", [&](const std::vector<std::string> &names) { return e(names); });
            e.mutate_random(range(1, 6));
        }
    };
    if (weighted) {
        Wx e(r.s.n, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, f, pick(100));
        r.w = hc::rnd_vd(e.get_weights().size(), -2, 2);
        e.set_weights(r.w);
        go(e);
    } else {
        Ex e(r.s.n - r.neph, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, f, r.neph, pick(100));
        go(e);
    }
    dsim::nontrivial();
}
// invalid constructions are rejected
void construction()
{
    Ref r = make_ref(false, true);
    const unsigned how = pick(9);
    unsigned n = r.s.n - r.neph, m = r.s.m, rr = r.s.r, c = r.s.c, l = r.s.l;
    auto ar = r.s.arity;
    auto ks = kernels(r);
    bool uniform = chance(1, 3) && how != 5 && how < 8;
    switch (how) {
        case 0: n = 0; r.neph = 0; break;
        case 1: m = 0; break;
        case 2: rr = 0; break;
        case 3: c = 0; break;
        case 4: l = 0; break;
        case 5: ar.push_back(1); break;
        case 6: ar[uniform ? 0 : pick(unsigned(ar.size()))] = 0; break;
        case 7: ks.clear(); break;
        default: ar.pop_back();
    }
    const bool weighted = chance(1, 2);
    if (weighted && n == 0) n = 0;
    else if (weighted) n += r.neph;
    bool threw = false;
    try {
        if (weighted && uniform) Wx e(n, m, rr, c, l, ar[0], ks, 3u);
        else if (weighted) Wx e(n, m, rr, c, l, ar, ks, 3u);
        else if (uniform) Ex e(n, m, rr, c, l, ar[0], ks, r.neph, 3u);
        else Ex e(n, m, rr, c, l, ar, ks, r.neph, 3u);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    DSIM_CHECK(threw, "invalid-accepted", "an invalid construction was accepted (" + std::to_string(how) + ")");
    dsim::event("ctor", how);
    dsim::nontrivial();
}

} // namespace

DSIM_SCENARIO(E01, expression_history, 5)
{
    Ref r = make_ref(false, chance(1, 2));
    Ex e = make_ex(r, pick(1000));
    history(e, r);
}
DSIM_SCENARIO(E01, weighted_history, 4)
{
    Ref r = make_ref(true, chance(1, 2));
    Wx e = make_wx(r, pick(1000));
    history(e, r);
}
DSIM_SCENARIO(E01, other_types, 1) { other_types(); }
DSIM_SCENARIO(E01, nested, 1) { nested(); }
DSIM_SCENARIO(E01, construction, 1) { construction(); }
