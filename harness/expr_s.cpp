// S01: serialization round trips
#include "expr.hpp"

namespace
{
// ---- S01 -----------------------------------------------------------------------------------------
template <typename E>
void equal_objects(E &a, E &b, const Ref &r, const char *ctx)
{
    auto eq = [&](bool ok, const char *what) {
        DSIM_CHECK(ok, "round-trip", std::string(ctx) + ": the loaded object differs in its " + what);
    };
    eq(a.get_n() == b.get_n() && a.get_m() == b.get_m() && a.get_r() == b.get_r() && a.get_c() == b.get_c()
           && a.get_l() == b.get_l() && a.get_arity() == b.get_arity() && a.get_f().size() == b.get_f().size(),
       "dimensions");
    eq(a.get_lb() == b.get_lb() && a.get_ub() == b.get_ub(), "bounds");
    eq(a.get() == b.get(), "chromosome");
    eq(a.get_active_nodes() == b.get_active_nodes() && a.get_active_genes() == b.get_active_genes(), "active genes");
    eq(a.get_gene_idx() == b.get_gene_idx(), "gene index");
    eq(hc::same(a.get_eph_val(), b.get_eph_val()) && a.get_eph_symb() == b.get_eph_symb(), "constants");
    const vd p = hc::rnd_vd(r.s.n - r.neph, -2, 2);
    DSIM_CHECK(hc::same(a(p), b(p)), "round-trip", std::string(ctx) + ": the loaded object evaluates differently");
    const std::vector<std::string> sy(r.s.n - r.neph, "x");
    DSIM_CHECK(a(sy) == b(sy), "round-trip", std::string(ctx) + ": the loaded object prints differently");
    for (unsigned i = 0; i < a.get_f().size(); ++i)
        DSIM_CHECK(a.get_f()[i].get_name() == b.get_f()[i].get_name()
                       && a.get_f()[i].get_thread_safety() == b.get_f()[i].get_thread_safety(),
                   "round-trip", std::string(ctx) + ": kernel " + std::to_string(i));
    DSIM_CHECK(state(a) == state(b), "round-trip", std::string(ctx) + ": the loaded object saves differently");
    // same future
    for (unsigned i = 0, n = range(1, 4); i < n; ++i) {
        const unsigned k = pick(6);
        for (E *q : {&a, &b}) {
            if (k == 0) q->mutate_random(3);
            if (k == 1) q->mutate_active(2);
            if (k == 2) q->mutate_inactive(3);
            if (k == 3) q->mutate_active_cgene(2);
            if (k == 4) q->mutate_ogene(2);
            if (k == 5) q->mutate_active_fgene(2);
        }
        DSIM_CHECK(a.get() == b.get(), "round-trip", std::string(ctx) + ": the loaded object mutates differently");
    }
}
template <bool W>
void round_trip()
{
    using E = std::conditional_t<W, Wx, Ex>;
    Ref r = make_ref(W, true);
    if (chance(1, 3)) {
        r.ks.push_back(1000u);
        r.s.nk++;
        r.limit = 1e200;
        r.s.bounds(r.lb, r.ub);
    }
    auto mk = [](Ref &q) -> E {
        if constexpr (W) return make_wx(q, pick(100));
        else return make_ex(q, pick(100));
    };
    E e = mk(r);
    for (unsigned i = 0, n = pick(8); i < n; ++i) step(e, r, true);
    const bool text = chance(1, 2);
    const std::string s = hc::dump(e, text);
    // the target may be anything
    E f;
    if (chance(2, 3)) {
        Ref q = make_ref(W, true);
        f = mk(q);
        for (unsigned i = 0, n = pick(5); i < n; ++i) step(f, q, true);
        dsim::probe("dirty-target");
    }
    if (dsim::fchance(1, 3)) { // a failed load first
        dsim::fault_fired("load-short-read");
        hc::FaultyBuf fb;
        fb.data = s;
        fb.limit = dsim::fpick(unsigned(s.size() - s.size() / 4));
        std::istream is(&fb);
        bool threw = false;
        try {
            if (text) {
                boost::archive::text_iarchive ia(is);
                ia >> f;
            } else {
                boost::archive::binary_iarchive ia(is);
                ia >> f;
            }
        } catch (...) {
            threw = true;
        }
        DSIM_CHECK(threw, "truncated-load-accepted", "an archive that lost its last quarter was loaded without an error");
        dsim::event("torn", fb.limit);
    }
    hc::undump(s, f, text);
    dsim::event("round-trip", s.size(), text);
    E g(e);
    equal_objects(g, f, r, "round trip");
    // saving does not disturb the source: it still equals a second load
    E h;
    hc::undump(s, h, text);
    equal_objects(e, h, r, "second load");
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(S01, expression_round_trip, 3) { round_trip<false>(); }
DSIM_SCENARIO(S01, weighted_round_trip, 3) { round_trip<true>(); }
