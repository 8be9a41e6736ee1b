// E04 (purity of a problem), C07 (problem level), S01 (problem round trip), C04 (copies of a problem)
#include "prob.hpp"

namespace
{
std::string two(const vd &a, const vd &b)
{
    return hc::str(a) + " expected " + hc::str(b);
}
bool near_vec(const vd &a, const vd &b, double rel)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!hc::close(a[i], b[i], rel)) return false;
    return true;
}
bool same3(const std::vector<vd> &a, const std::vector<vd> &b)
{
    return hc::same(a, b);
}
// what the problem says about a candidate against the reference and against a problem that never did anything else
void check_fitness(const Sr &p, const PRef &q, const vd &x, const char *ctx)
{
    double mag = 0;
    bool bad = false;
    vd want;
    try {
        want = q.fitness(x, &mag);
    } catch (const bad_point &) {
        bad = true;
    }
    vd got;
    bool threw = false;
    try {
        got = p.fitness(x);
    } catch (const bad_point &) {
        threw = true;
    }
    dsim::event("fitness", got.empty() ? 0 : dsim::bits(got[0]), threw);
    const std::string w = std::string(ctx) + ": fitness of " + hc::str(x) + " [" + q.str() + "]: ";
    DSIM_CHECK(threw == bad, "wrong-fitness", w + (bad ? "an error of a kernel was lost" : "an error appeared"));
    if (bad) {
        dsim::fault_fired("failed-evaluation");
        return;
    }
    DSIM_CHECK(got.size() == want.size(), "wrong-fitness", w + "wrong number of objectives");
    if (q.multi) DSIM_CHECK(got[1] == want[1], "wrong-fitness", w + "complexity " + two(got, want));
    if (mag < 1e4)
        DSIM_CHECK(hc::close(got[0], want[0]) || std::fabs(got[0] - want[0]) <= 1e-9 * std::max(1., mag * mag),
                   "wrong-fitness", w + two(got, want));
    vd fresh;
    {
        dsim::Quiet quiet;
        PRef s = q;
        s.par = 0;
        fresh = s.build().fitness(x);
    }
    DSIM_CHECK(q.par ? near_vec(got, fresh, 1e-9) : hc::same(got, fresh), "history-dependent",
               w + two(got, fresh) + " (by a fresh problem)");
}
bool smooth(const PRef &q)
{
    for (auto k : q.r.ks)
        if (k == 4 || k == 7 || k == 8 || k == 15 || k == 16 || k == 21 || k == 22 || k == 1001u)
            return false; // branches, or a singular derivative
    return true;
}
void check_gradient(const Sr &p, const PRef &q, const vd &x, const char *ctx)
{
    const vd got = p.gradient(x);
    dsim::event("gradient", got.empty() ? 0 : dsim::bits(got[0]));
    const std::string w = std::string(ctx) + ": gradient at " + hc::str(x) + " [" + q.str() + "]: ";
    DSIM_CHECK(got.size() == q.r.neph, "wrong-gradient", w + "wrong size");
    dsim::Quiet quiet;
    const vd fresh = q.build().gradient(x);
    DSIM_CHECK(hc::same(got, fresh), "history-dependent", w + two(got, fresh) + " (by a fresh problem)");
    if (!smooth(q)) return;
    for (unsigned i = 0; i < q.r.neph; ++i) { // against differences of the reference loss
        double d[2], mag = 0;
        for (int k = 0; k < 2; ++k) {
            const double h = k ? 1e-4 : 5e-5;
            vd a(x), b(x);
            a[i] += h;
            b[i] -= h;
            d[k] = (q.loss(a, &mag) - q.loss(b, &mag)) / (2 * h);
        }
        if (!(mag < 50.) || !std::isfinite(d[0]) || !(std::fabs(d[0] - d[1]) < 1e-5 * std::max(1., std::fabs(d[0])))) continue;
        DSIM_CHECK(std::fabs(got[i] - d[0]) <= 1e-3 * std::max(1., std::fabs(d[0])), "wrong-gradient",
                   w + "component " + std::to_string(i) + " is " + hc::str(got[i]) + " but the loss changes at " + hc::str(d[0]));
        dsim::probe("gradient-compared");
    }
}
void check_hessians(const Sr &p, const PRef &q, const vd &x, const char *ctx)
{
    const auto got = p.hessians(x);
    dsim::event("hessians", got.empty() || got[0].empty() ? 0 : dsim::bits(got[0][0]));
    const std::string w = std::string(ctx) + ": hessians at " + hc::str(x) + " [" + q.str() + "]: ";
    dsim::Quiet quiet;
    const Sr f = q.build();
    const auto fresh = f.hessians(x);
    DSIM_CHECK(same3(got, fresh), "history-dependent", w + "differ from those of a fresh problem");
    DSIM_CHECK(got.size() == 1u + q.multi && got[0].size() == q.r.neph * (q.r.neph + 1) / 2, "wrong-hessians",
               w + "wrong size");
    if (!smooth(q)) return;
    unsigned k = 0;
    for (unsigned i = 0; i < q.r.neph; ++i)
        for (unsigned j = 0; j <= i; ++j, ++k) {
            double d[2], mag = 0;
            for (int s = 0; s < 2; ++s) {
                const double h = s ? 1e-4 : 5e-5;
                vd a(x), b(x);
                a[i] += h;
                b[i] -= h;
                q.loss(a, &mag);
                d[s] = (q.build().gradient(a)[j] - q.build().gradient(b)[j]) / (2 * h);
            }
            if (!(mag < 50.) || !std::isfinite(d[0]) || !(std::fabs(d[0] - d[1]) < 1e-5 * std::max(1., std::fabs(d[0])))) continue;
            DSIM_CHECK(std::fabs(got[0][k] - d[0]) <= 1e-3 * std::max(1., std::fabs(d[0])), "wrong-hessians",
                       w + "entry " + std::to_string(k) + " is " + hc::str(got[0][k])
                           + " but the gradient changes at " + hc::str(d[0]));
            dsim::probe("hessian-compared");
        }
}
void check_predict(const Sr &p, const PRef &q, const vd &x, const char *ctx)
{
    const vvd pts = hc::rnd_rows(range(1, 3), q.np(), -2, 2);
    const Ref e = q.at(x);
    const bool one = chance(1, 2);
    double mag = 0;
    bool bad = false, threw = false;
    vvd want, got;
    try {
        for (auto &pt : pts) {
            want.push_back(e.eval(pt, &mag));
            if (one) break;
        }
    } catch (const bad_point &) {
        bad = true;
    }
    try {
        if (one) got.push_back(p.predict(pts[0], x));
        else got = p.predict(pts, x);
    } catch (const bad_point &) {
        threw = true;
    }
    dsim::event("predict", got.empty() ? 0 : dsim::bits(got[0][0]), threw);
    const std::string w = std::string(ctx) + ": predict with " + hc::str(x) + " [" + q.str() + "]: ";
    DSIM_CHECK(threw == bad, "wrong-prediction", w + (bad ? "an error of a kernel was lost" : "an error appeared"));
    if (bad) return;
    DSIM_CHECK(got.size() == want.size(), "wrong-prediction", w + "wrong number of predictions");
    if (mag < 1e6)
        for (std::size_t i = 0; i < got.size(); ++i)
            DSIM_CHECK(near_vec(got[i], want[i], 1e-8), "wrong-prediction", w + two(got[i], want[i]));
}
void check_text(const Sr &p, const PRef &q, const vd &x, const char *ctx)
{
    const std::string a = p.pretty(x), b = p.prettier(x), c = p.get_extra_info();
    dsim::event("pretty", a.size(), b.size(), c.size());
    dsim::Quiet quiet;
    const Sr f = q.build();
    DSIM_CHECK(a == f.pretty(x) && b == f.prettier(x) && c == f.get_extra_info(), "history-dependent",
               std::string(ctx) + ": printed " + a + " expected " + f.pretty(x));
    Ref r = q.at(x);
    for (unsigned i = 0; i < r.neph; ++i) r.symb.push_back("c" + std::to_string(i + 1));
    for (auto &s : {a, b}) // (nothing simplifies the latter here)
        check_formulas(r, std::string(ctx) + ": pretty of " + hc::str(x), [a = s](const std::vector<std::string> &) {
        std::vector<std::string> v(1);
        DSIM_CHECK(a.size() > 2 && a.front() == '[' && a.back() == ']', "wrong-formula", "pretty printed " + a);
        int depth = 0;
        for (std::size_t i = 1; i + 1 < a.size(); ++i) {
            depth += (a[i] == '(') - (a[i] == ')');
            if (a[i] == ',' && !depth) {
                v.emplace_back();
                ++i; // the blank
            } else
                v.back() += a[i];
        }
        return v;
    });
}
void check_meta(const Sr &p, const PRef &q, const char *ctx)
{
    const std::string w = std::string(ctx) + " [" + q.str() + "]: ";
    vd lb(q.r.neph, -10.), ub(q.r.neph, 10.);
    lb.insert(lb.end(), q.r.lb.begin(), q.r.lb.end());
    ub.insert(ub.end(), q.r.ub.begin(), q.r.ub.end());
    const auto b = p.get_bounds();
    DSIM_CHECK(b.first == lb && b.second == ub, "wrong-metadata", w + "bounds");
    DSIM_CHECK(p.get_nix() == q.r.lb.size() && p.get_nobj() == 1u + q.multi, "wrong-metadata", w + "dimensions");
    pagmo::sparsity_pattern gs, hs;
    for (unsigned i = 0; i < q.r.neph; ++i) {
        gs.push_back({0u, i});
        for (unsigned j = 0; j <= i; ++j) hs.push_back({i, j});
    }
    DSIM_CHECK(p.gradient_sparsity() == gs && p.hessians_sparsity()[0] == hs, "wrong-metadata", w + "sparsity");
    DSIM_CHECK(int(p.get_thread_safety()) == q.level(), "wrong-thread-safety",
               w + "level " + std::to_string(int(p.get_thread_safety())) + " expected " + std::to_string(q.level()));
}
void malformed(const Sr &p, const PRef &q, const vd &x0)
{
    vd x(x0);
    const unsigned g = q.r.neph + pick(unsigned(q.r.lb.size()));
    switch (pick(6)) {
        case 0: x.push_back(0.); break;
        case 1: x.pop_back(); break;
        case 2: x[g] = q.r.ub[g - q.r.neph] + 1.; break;
        case 3: x[g] = -1.; break;
        case 4: x[g] = 1e20; break;
        default: x[g] = std::nan("");
    }
    bool threw = false;
    const unsigned how = pick(5);
    try {
        if (how == 0) p.fitness(x);
        else if (how == 1) p.gradient(x);
        else if (how == 2) p.hessians(x);
        else if (how == 3) p.predict(vd(q.np(), 0.5), x);
        else p.pretty(x);
    } catch (const std::exception &) {
        threw = true;
    }
    dsim::event("malformed", how, g);
    DSIM_CHECK(threw, "invalid-accepted", "the malformed candidate " + hc::str(x) + " was accepted [" + q.str() + "]");
    dsim::probe("rejected-operations");
}
PRef with_pc(PRef q)
{
    q.r.has_pc = true;
    q.r.pc.a = double(range(1, 3));
    q.r.pc.b = double(pick(3));
    q.pclevel = int(pick(3));
    q.dpclevel = int(pick(3));
    return q;
}
void history(int kind)
{
    dsim::configure_schedule();
    dsim::set_workers(1 + pick(4));
    PRef q = make_pref(kind);
    if (chance(1, 4)) q = with_pc(q);
    Sr p = q.build();
    std::vector<vd> xs;
    for (unsigned i = 0, n = range(1, 4); i < n; ++i) xs.push_back(q.cand());
    if (xs.size() > 1 && q.r.neph) { // candidates that differ in the constants only
        xs[1] = xs[0];
        xs[1][0] = dsim::real(-3, 3);
    }
    check_meta(p, q, "construction");
    for (unsigned i = 0, n = range(3, 12); i < n; ++i) {
        const vd &x = xs[pick(unsigned(xs.size()))];
        switch (pick(14)) {
            case 0:
            case 1: check_fitness(p, q, x, "history"); break;
            case 2:
            case 3: check_gradient(p, q, x, "history"); break;
            case 4: check_hessians(p, q, x, "history"); break;
            case 5: check_predict(p, q, x, "history"); break;
            case 6: check_text(p, q, x, "history"); break;
            case 7: malformed(p, q, x); break;
            case 8: { // through a copy, while the other one computes something else
                Sr c(p);
                const vd &y = xs[pick(unsigned(xs.size()))];
                check_fitness(c, q, y, "copy");
                if (chance(1, 2)) check_fitness(p, q, x, "original");
                if (chance(1, 2)) c = p;
                p = std::move(c);
                break;
            }
            case 9: { // through an archive, into a fresh or a used problem
                const bool text = chance(1, 2);
                const std::string s = hc::dump(p, text);
                Sr c;
                if (chance(1, 2)) {
                    PRef o = make_pref(0, true);
                    c = o.build();
                    const vd y = o.cand();
                    if (chance(1, 2)) check_gradient(c, o, y, "other");
                    else check_fitness(c, o, y, "other");
                }
                hc::undump(s, c, text);
                p = std::move(c);
                dsim::probe("save-load");
                break;
            }
            case 10:
                q = with_pc(q);
                q.correct(p);
                break;
            case 11:
                q.r.has_pc = false;
                p.unset_phenotype_correction();
                break;
            case 12: { // a call that fails for lack of memory
                const unsigned how = pick(4);
                bool fired = false;
                hc::with_alloc_fault(dsim::fpick(60), [&] {
                    if (how == 0) p.fitness(x);
                    else if (how == 1) p.gradient(x);
                    else if (how == 2) p.hessians(x);
                    else p.predict(vd(q.np(), 0.5), x);
                }, &fired);
                dsim::event("alloc-fault", how, fired);
                break;
            }
            default: check_meta(p, q, "history");
        }
    }
    const vd &x = xs[0];
    check_fitness(p, q, x, "end");
    check_gradient(p, q, x, "end");
    check_fitness(p, q, x, "after gradient");
    check_meta(p, q, "end");
    dsim::nontrivial();
}
void bad_configuration()
{
    PRef q = make_pref(0, true);
    std::string loss = "MSE";
    auto ks = q.make_kernels();
    unsigned r = q.r.s.r, c = q.r.s.c, l = q.r.s.l, a = q.r.s.arity[0];
    const unsigned how = pick(12), i = pick(unsigned(q.X.size()));
    switch (how) {
        case 0: q.X.clear(); break;
        case 1: q.Y.clear(); break;
        case 2: q.X.clear(); q.Y.clear(); break;
        case 3: q.X.push_back(q.X[0]); break;
        case 4: q.Y.push_back(q.Y[0]); break;
        case 5: q.X.push_back(vd(q.np() + 1, 0.)); q.Y.push_back(q.Y[0]); break;
        case 6: q.Y.push_back(vd(q.r.s.m + 1, 0.)); q.X.push_back(q.X[0]); break;
        case 7: r = 0; break;
        case 8: c = 0; break;
        case 9: l = 0; break;
        case 10: if (chance(1, 2)) a = 1; else ks.clear(); break;
        default: loss = chance(1, 2) ? "XX" : ""; break;
    }
    bool threw = false;
    try {
        Sr p(q.X, q.Y, r, c, l, a, ks, q.r.neph, q.multi, q.par, loss, q.seed);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    dsim::event("bad-configuration", how, i);
    DSIM_CHECK(threw, "invalid-accepted", "a malformed problem was accepted, kind " + std::to_string(how));
    dsim::nontrivial();
}
void levels()
{
    PRef q = make_pref(2, true);
    if (chance(1, 2)) // only user kernels: nothing else limits the level
        q.r.ks.assign(q.r.ks.size(), 1001u);
    if (chance(1, 2)) q = with_pc(q);
    Sr p = q.build();
    check_meta(p, q, "construction");
    for (unsigned i = 0, n = range(1, 6); i < n; ++i) {
        switch (pick(6)) {
            case 0: {
                Sr c(p);
                Sr d;
                d = c;
                p = std::move(d);
                break;
            }
            case 1: {
                PRef o = make_pref(2, true);
                Sr c = o.build();
                hc::undump(hc::dump(p), c);
                p = c;
                break;
            }
            case 2: {
                Sr c;
                hc::undump(hc::dump(p, false), c, false);
                p = c;
                break;
            }
            case 3:
                q = with_pc(q);
                q.correct(p);
                break;
            case 4:
                q.r.has_pc = false;
                p.unset_phenotype_correction();
                break;
            default: {
                pagmo::problem pp(p);
                pagmo::problem pq(pp);
                DSIM_CHECK(int(pq.get_thread_safety()) == q.level(), "wrong-thread-safety",
                           "a pagmo::problem reports level " + std::to_string(int(pq.get_thread_safety())));
                p = *pq.extract<Sr>();
            }
        }
        check_meta(p, q, "transfer");
    }
    dsim::nontrivial();
}
void check_loaded(const Sr &a, const Sr &b, const PRef &q)
{
    DSIM_CHECK(hc::dump(a) == hc::dump(b), "round-trip", "the loaded problem saves differently");
    check_meta(b, q, "round trip");
    const vd x = q.cand();
    check_fitness(b, q, x, "round trip");
    check_gradient(b, q, x, "round trip");
    check_hessians(b, q, x, "round trip");
    check_text(b, q, x, "round trip");
    check_predict(b, q, x, "round trip");
    // the engine that seeds the mutations of the algorithms
    Ex ea(a.get_cgp()), eb(b.get_cgp());
    for (Ex *e : {&ea, &eb}) {
        const Ref c = q.at(x);
        e->set(c.x);
        e->mutate_random(5);
    }
    DSIM_CHECK(ea.get() == eb.get(), "round-trip", "the loaded problem's expression mutates differently");
    dsim::nontrivial();
}
void round_trip()
{
    dsim::configure_schedule();
    dsim::set_workers(2);
    PRef q = make_pref(pick(3));
    if (chance(1, 3)) q = with_pc(q);
    pagmo::problem p(q.build());
    const unsigned nf = pick(4);
    for (unsigned i = 0; i < nf; ++i) {
        try {
            p.fitness(q.cand());
        } catch (const bad_point &) {
        }
    }
    const bool text = chance(1, 2);
    if (chance(1, 2)) { // by itself, into an object that has been used or not
        dsim::probe("direct");
        Sr t;
        if (chance(2, 3)) {
            PRef b = make_pref(pick(2), true);
            if (chance(1, 2)) b = with_pc(b);
            t = b.build();
            t.fitness(b.cand());
            if (chance(1, 2)) t.gradient(b.cand());
        }
        hc::undump(hc::dump(*p.extract<Sr>(), text), t, text);
        check_loaded(*p.extract<Sr>(), t, q);
        return;
    }
    const std::string s = hc::dump(p, text);
    pagmo::problem o;
    if (chance(1, 2)) {
        PRef b = make_pref(0, true);
        o = pagmo::problem(b.build());
        o.fitness(b.cand());
        dsim::probe("dirty-target");
    }
    if (dsim::fchance(1, 3)) {
        dsim::fault_fired("load-short-read");
        hc::FaultyBuf fb;
        fb.data = s;
        fb.limit = dsim::fpick(unsigned(s.size() - s.size() / 4));
        std::istream is(&fb);
        bool threw = false;
        try {
            if (text) {
                boost::archive::text_iarchive ia(is);
                ia >> o;
            } else {
                boost::archive::binary_iarchive ia(is);
                ia >> o;
            }
        } catch (...) {
            threw = true;
        }
        DSIM_CHECK(threw, "truncated-load-accepted", "an archive that lost its last quarter was loaded without an error");
    }
    hc::undump(s, o, text);
    dsim::event("round-trip", s.size(), text);
    DSIM_CHECK(o.get_fevals() == p.get_fevals(), "round-trip", "number of evaluations");
    DSIM_CHECK(hc::dump(o) == hc::dump(p), "round-trip", "the loaded problem saves differently");
    const Sr *a = p.extract<Sr>(), *b = o.extract<Sr>();
    DSIM_CHECK(a && b, "round-trip", "another type of problem came back");
    check_loaded(*a, *b, q);
}
void copies()
{
    dsim::configure_schedule();
    dsim::set_workers(1 + pick(3));
    PRef q = make_pref(pick(2), true);
    Sr p = q.build();
    const unsigned T = range(2, 3);
    std::vector<vd> xs;
    for (unsigned i = 0; i < T; ++i) xs.push_back(q.cand());
    std::vector<vd> f(T), g(T), f0(T), g0(T);
    {
        dsim::Quiet quiet;
        for (unsigned i = 0; i < T; ++i) {
            f0[i] = q.build().fitness(xs[i]);
            g0[i] = q.build().gradient(xs[i]);
        }
    }
    std::vector<Sr> own(T, p);
    std::vector<std::function<void()>> th;
    for (unsigned i = 0; i < T; ++i)
        th.push_back([&, i] {
            g[i] = own[i].gradient(xs[i]);
            f[i] = own[i].fitness(xs[i]);
        });
    dsim::run_threads(th);
    for (unsigned i = 0; i < T; ++i) {
        dsim::event("copy", dsim::bits(f[i][0]));
        DSIM_CHECK(near_vec(f[i], f0[i], 1e-9) && hc::same(g[i], g0[i]), "wrong-concurrent-result",
                   "a private copy evaluated " + two(f[i], f0[i]) + " [" + q.str() + "]");
    }
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(E04, history_any, 3) { history(0); }
DSIM_SCENARIO(E04, history_smooth, 2) { history(1); }
DSIM_SCENARIO(E04, history_failing_kernel, 2) { history(2); }
DSIM_SCENARIO(E04, bad_configuration, 1) { bad_configuration(); }
DSIM_SCENARIO(C07, problem_levels, 2) { levels(); }
DSIM_SCENARIO(S01, problem_round_trip, 2) { round_trip(); }
DSIM_SCENARIO(C04, problem_copies, 1) { copies(); }
