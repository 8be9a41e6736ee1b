// C02: parallel batch loss; C04: concurrent use
#include "expr.hpp"

namespace
{
// ---- C02 -----------------------------------------------------------------------------------------
void batch(bool faults, bool weighted)
{
    dsim::configure_schedule();
    dsim::set_workers(range(0, 4));
    Ref r = make_ref(weighted, true);
    const bool picky = faults && chance(1, 2);
    if (picky) {
        r.ks.push_back(1000u);
        r.s.nk++;
        r.limit = dsim::real(-1, 1);
        r.s.bounds(r.lb, r.ub);
    }
    std::unique_ptr<Ex> pe;
    if (weighted) {
        auto w = std::make_unique<Wx>(make_wx(r, pick(100)));
        r.w = hc::rnd_vd(r.w.size(), -2, 2);
        w->set_weights(r.w);
        pe = std::move(w);
    } else {
        pe = std::make_unique<Ex>(make_ex(r, pick(100)));
        if (chance(1, 4)) {
            r.has_pc = true;
            r.pc.a = 2.;
            pe->set_phenotype_correction(r.pc);
        }
    }
    const Ex &e = *pe;
    const unsigned N = dsim::rare(25) ? range(30, 200) : range(1, 12), dim = r.s.n - r.neph;
    vvd X = hc::rnd_rows(N, dim, -2, 2);
    vvd Y = hc::rnd_rows(N, r.s.m, -2, 2);
    // a point far away: what the outputs become there is part of the loss as well
    if (dim && chance(1, 8)) X[pick(N)][pick(dim)] = (chance(1, 2) ? 1 : -1) * (chance(1, 2) ? 1000. : 730.);
    // and so is what is not a number
    if (chance(1, 10))
        for (unsigned i = 0, k = range(1, 2); i < k; ++i) {
            static const double odd[] = {NAN, INFINITY, -INFINITY, 1e308};
            double &v = dim && chance(1, 3) ? X[pick(N)][pick(dim)] : Y[pick(N)][pick(r.s.m)];
            v = odd[pick(4)];
        }
    const bool ce = chance(1, 4);
    const std::string loss = ce ? "CE" : "MSE";
    // reference
    double want = 0, mag = 1e-300;
    bool throws = false;
    for (unsigned i = 0; i < N && !throws; ++i) {
        vd y;
        try {
            y = r.eval(X[i], &mag);
        } catch (const bad_point &) {
            throws = true;
            break;
        }
        double t = 0;
        if (!ce) {
            for (unsigned j = 0; j < y.size(); ++j) t += (y[j] - Y[i][j]) * (y[j] - Y[i][j]);
            t /= double(y.size());
        } else {
            const double mx = *std::max_element(y.begin(), y.end());
            double cs = 0;
            for (double &v : y) cs += v = std::exp(v - mx);
            for (unsigned j = 0; j < y.size(); ++j) t -= std::log(y[j] / cs) * Y[i][j];
        }
        want += t;
        mag = std::max(mag, std::fabs(t));
    }
    want /= N;
    // not a number, infinite or finite: point by point
    int cls = throws ? 9 : 0; // 0 finite, +-1 infinite, 2 not a number, 9 unknown
    if (!throws) {
        dsim::Quiet q;
        for (unsigned i = 0; i < N && cls != 9; ++i) {
            double t = 0;
            try {
                t = e.loss(X[i], Y[i], ce ? Ex::loss_type::CE : Ex::loss_type::MSE);
            } catch (const bad_point &) {
                cls = 9; // not what the model says: the loss of the batch will tell
                break;
            }
            if (std::isnan(t)) cls = 2;
            else if (std::isinf(t)) cls = cls == 2 || cls == (t > 0 ? -1 : 1) ? 2 : t > 0 ? 1 : -1;
            else if (std::fabs(t) > 1e300) cls = 9; // may become infinite
        }
        if (cls != 0 && cls != 9) dsim::probe("loss-not-finite");
    }
    const std::string before = weighted ? state(static_cast<const Wx &>(e)) : state(e);
    const unsigned nthreads = chance(1, 4) ? 2 : 1;
    std::vector<std::string> bad(nthreads);
    auto one = [&](unsigned t) {
        for (unsigned rep = 0; rep < 2; ++rep) {
            unsigned par;
            {
                dsim::Quiet q;
                par = chance(1, 8) ? 0 : range(1, N + 2);
                if (par && N % par && !chance(1, 4))
                    while (N % par) --par;
            }
            std::uint64_t an = ~0ull;
            if (faults && nthreads == 1 && dsim::fchance(1, 2)) an = dsim::fpick(24 + 12 * N);
            int res = 0; // 0 value, 1 bad_alloc, 2 bad_point, 3 invalid_argument, 4 other
            double got = 0;
            bool fired = false;
            {
                if (an != ~0ull) dsim::arm_alloc_fault(an);
                try {
                    got = e.loss(X, Y, loss, par);
                } catch (const std::bad_alloc &) {
                    res = 1;
                } catch (const bad_point &) {
                    res = 2;
                } catch (const std::invalid_argument &) {
                    res = 3;
                } catch (...) {
                    res = 4;
                }
                if (an != ~0ull) fired = dsim::disarm_alloc_fault();
            }
            dsim::Quiet q;
            dsim::event("loss", dsim::bits(got), par, unsigned(res));
            const std::string w = "N=" + std::to_string(N) + " parallel=" + std::to_string(par) + " loss=" + loss + ": ";
            const bool indivisible = par && N % par;
            if (indivisible) {
                if (res != 3 && !(fired && res == 1)) bad[t] = w + "an indivisible split was not rejected";
                continue;
            }
            if (res == 0) {
                if (throws) bad[t] = w + "returned " + hc::str(got) + " although the kernel rejects one of the points";
                // the order of summation depends on the schedule
                // (a softmax probability that underflows leaves 0 * log(0): nothing is claimed then)
                else if (!std::isnan(want) && !hc::close(got, want, 1e-9) && !(std::fabs(got - want) <= 1e-10 * mag) && mag < 1e8)
                    bad[t] = w + "returned " + hc::str(got) + " expected " + hc::str(want);
                else if (cls != 9 && cls != (std::isnan(got) ? 2 : std::isinf(got) ? (got > 0 ? 1 : -1) : 0))
                    bad[t] = w + "returned " + hc::str(got) + " which is not the sum of the losses of the points";
            } else if (res == 1) {
                dsim::probe("loss-failed-by-alloc");
                if (!fired) bad[t] = w + "bad_alloc without memory exhaustion";
            } else if (res == 2) {
                dsim::probe("kernel-exception-propagated");
                if (!throws) bad[t] = w + "the kernel's exception without a rejected point";
            } else
                bad[t] = w + "wrong exception type " + std::to_string(res);
            if (bad[t].size()) return;
        }
    };
    if (nthreads == 1) one(0);
    else {
        std::vector<std::function<void()>> bodies;
        for (unsigned t = 0; t < nthreads; ++t) bodies.push_back([&, t] { one(t); });
        dsim::run_threads(bodies);
    }
    for (auto &b : bad) DSIM_CHECK(b.empty(), "parallel-loss", b);
    DSIM_CHECK((weighted ? state(static_cast<const Wx &>(e)) : state(e)) == before, "read-had-effect",
               "computing a loss changed the expression");
    dsim::nontrivial();
}
void batch_dual()
{
    dsim::configure_schedule();
    dsim::set_workers(range(0, 3));
    Ref r = make_ref(false, true, true);
    using G = audi::gdual_d;
    dcgp::kernel_set<G> ks(hc::kernel_names(r.ks));
    dcgp::expression<G> g(r.s.n - r.neph, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, ks(), r.neph, pick(100));
    r.x = g.get();
    for (auto &v : g.get_eph_val()) r.eph.push_back(v.constant_cf());
    const unsigned par = range(1, 3), N = par * range(1, 2);
    const vvd X = hc::rnd_rows(N, r.s.n - r.neph, -2, 2), Y = hc::rnd_rows(N, r.s.m, -2, 2);
    std::vector<std::vector<G>> gx(N), gy(N);
    for (unsigned i = 0; i < N; ++i) {
        for (double v : X[i]) gx[i].push_back(G(v));
        for (double v : Y[i]) gy[i].push_back(G(v));
    }
    if (r.neph) {
        auto ev = g.get_eph_val();
        ev[0] = G(r.eph[0], "c1", 1);
        g.set_eph_val(ev);
    }
    double want = 0, mag = 0;
    for (unsigned i = 0; i < N; ++i) {
        const vd y = r.eval(X[i], &mag);
        double t = 0;
        for (unsigned j = 0; j < y.size(); ++j) t += (y[j] - Y[i][j]) * (y[j] - Y[i][j]);
        want += t / double(y.size());
    }
    want /= N;
    const G seq = g.loss(gx, gy, "MSE", 0u), pll = g.loss(gx, gy, "MSE", par);
    dsim::event("dual-loss", dsim::bits(pll.constant_cf()));
    DSIM_CHECK(mag > 1e6 || (hc::close(seq.constant_cf(), want, 1e-8) && hc::close(pll.constant_cf(), want, 1e-8)),
               "parallel-loss", "dual loss " + hc::str(pll.constant_cf()) + " sequential " + hc::str(seq.constant_cf())
                                    + " expected " + hc::str(want));
    if (r.neph && mag < 1e4) {
        auto der = [](const G &q) {
            for (std::size_t i = 0; i < q.get_symbol_set_size(); ++i)
                if (q.get_symbol_set()[i] == "dc1") return q.get_derivative({1u});
            return 0.;
        };
        DSIM_CHECK(hc::close(der(seq), der(pll), 1e-7) || std::fabs(der(seq) - der(pll)) < 1e-7, "parallel-loss",
                   "derivative " + hc::str(der(pll)) + " sequential " + hc::str(der(seq)));
    }
    dsim::nontrivial();
}

// ---- C04 -----------------------------------------------------------------------------------------
template <bool W>
void share()
{
    dsim::configure_schedule();
    dsim::set_workers(range(0, 2));
    Ref r = make_ref(W, true, true);
    std::unique_ptr<Ex> pe;
    if constexpr (W) {
        auto w = std::make_unique<Wx>(make_wx(r, pick(100)));
        r.w = hc::rnd_vd(r.w.size(), -2, 2);
        w->set_weights(r.w);
        pe = std::move(w);
    } else {
        pe = std::make_unique<Ex>(make_ex(r, pick(100)));
        if (chance(1, 4)) {
            r.has_pc = true;
            pe->set_phenotype_correction(r.pc);
        }
    }
    using E = std::conditional_t<W, Wx, Ex>;
    const E &e = static_cast<const E &>(*pe);
    const unsigned T = range(2, 4), n = range(1, 3), dim = r.s.n - r.neph;
    const vvd X = hc::rnd_rows(4, dim, -2, 2), Y = hc::rnd_rows(4, r.s.m, -2, 2);
    // sequential expectations, including what each thread's private copy will do
    std::vector<vd> want;
    for (auto &p : X) want.push_back(e(p));
    const double l0 = e.loss(X, Y, "MSE", 0u);
    const auto sy = e(std::vector<std::string>(dim, "x"));
    std::vector<std::vector<unsigned>> plan(T);
    for (auto &p : plan)
        for (unsigned i = 0; i < n; ++i) p.push_back(pick(7));
    std::vector<vu> twin(T);
    for (unsigned t = 0; t < T; ++t) {
        E c(e);
        c.seed(long(t));
        c.mutate_random(3);
        c.mutate_active(2);
        twin[t] = c.get();
    }
    std::vector<std::string> bad(T);
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < T; ++t)
        bodies.push_back([&, t] {
            for (unsigned op : plan[t]) {
                switch (op) {
                    case 0:
                        for (unsigned i = 0; i < X.size(); ++i)
                            if (!hc::same(e(X[i]), want[i])) bad[t] = "concurrent evaluation returned another value";
                        break;
                    case 1:
                        if (e(std::vector<std::string>(dim, "x")) != sy) bad[t] = "concurrent symbolic evaluation";
                        break;
                    case 2:
                        if (!hc::close(e.loss(X, Y, "MSE", t % 2 ? 2u : 0u), l0)) bad[t] = "concurrent loss";
                        break;
                    case 3: {
                        E c(e);
                        c.seed(long(t));
                        c.mutate_random(3);
                        c.mutate_active(2);
                        if (c.get() != twin[t]) bad[t] = "a private copy was disturbed by other threads";
                        if (!hc::same(e(X[0]), want[0])) bad[t] = "mutating a private copy changed the shared object";
                        break;
                    }
                    case 4: {
                        Ex d; // default construction draws its seed from the global sequence
                        d.mutate_random(2);
                        d(vd{1.});
                        dcgp::kernel_set<double> ks({"sum", "mul", "sin"});
                        if (ks()[1]({3., 4.}) != 12.) bad[t] = "kernel set";
                        break;
                    }
                    case 5: {
                        std::ostringstream os;
                        os << e;
                        if (e.get_active_nodes().empty() || !e.is_active_gene(unsigned(e.get().size()) - 1u))
                            bad[t] = "concurrent introspection";
                        break;
                    }
                    default: {
                        E c;
                        c = e;
                        if (!hc::same(c(X[1]), want[1])) bad[t] = "copy assignment from a shared object";
                    }
                }
                dsim::event("share", t, op);
            }
        });
    dsim::run_threads(bodies);
    for (auto &b : bad) DSIM_CHECK(b.empty(), "concurrent-result", b);
    check_invariants(e, r, "after concurrent use");
    dsim::nontrivial();
}

} // namespace

DSIM_SCENARIO(C02, batch, 3) { batch(false, false); }
DSIM_SCENARIO(C02, batch_faults, 3) { batch(true, false); }
DSIM_SCENARIO(C02, batch_weighted, 1) { batch(false, true); }
DSIM_SCENARIO(C02, batch_dual, 1) { batch_dual(); }
DSIM_SCENARIO(C04, share_expression, 3) { share<false>(); }
DSIM_SCENARIO(C04, share_weighted, 2) { share<true>(); }
