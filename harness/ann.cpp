// Networks: C03 (parallel loss, gradient, training) and the network parts of E01, S01, C04.
#include "ann.hpp"

namespace
{
vvd rnd_labels(unsigned N, unsigned m, bool ce)
{
    if (!ce) return hc::rnd_rows(N, m, -2, 2);
    vvd Y; // probabilities
    for (unsigned i = 0; i < N; ++i) {
        vd y(m, 0.);
        if (m == 1 || chance(1, 2)) y[pick(m)] = 1.;
        else {
            y[0] = 0.25;
            y[m - 1] = 0.75;
        }
        Y.push_back(y);
    }
    return Y;
}
struct Data {
    vvd X, Y;
    bool ce;
    std::string loss() const { return ce ? "CE" : "MSE"; }
    An::loss_type le() const { return ce ? An::loss_type::CE : An::loss_type::MSE; }
};
Data rnd_data(const Ref &r, unsigned N)
{
    Data d;
    d.ce = chance(1, 3);
    d.X = hc::rnd_rows(N, r.s.n, -2, 2);
    if (chance(1, 6)) d.X[pick(N)] = vd(r.s.n, 0.); // the origin
    if (chance(1, 8)) d.X[pick(N)][0] = chance(1, 2) ? 1000. : -1000.; // far away
    d.Y = rnd_labels(N, r.s.m, d.ce);
    return d;
}
void check_gradient(An &e, const Ref &r, const Data &d, unsigned parallel, const std::string &ctx)
{
    Net net{r};
    const auto want = net.loss(d.X, d.Y, 0, d.X.size(), d.ce, r.w, r.b);
    const auto got = e.d_loss(d.X, d.Y, d.le(), parallel);
    dsim::event("gradient", dsim::bits(std::get<0>(got)), parallel);
    if (net.mag > 1e6 || !std::isfinite(want.first)) return;
    const std::string w = ctx + " N=" + std::to_string(d.X.size()) + " parallel=" + std::to_string(parallel) + " " + d.loss()
                          + " [" + r.s.str() + " x=" + hc::str(r.x) + "]: ";
    DSIM_CHECK(std::fabs(std::get<0>(got) - want.first) <= 1e-8 * std::max(1., net.mag), "network-loss",
               w + "loss " + hc::str(std::get<0>(got)) + " expected " + hc::str(want.first));
    const double l = e.loss(d.X, d.Y, d.loss(), parallel);
    DSIM_CHECK(std::fabs(l - want.first) <= 1e-8 * std::max(1., net.mag), "network-loss",
               w + "loss() " + hc::str(l) + " expected " + hc::str(want.first));
    const vd g = cat(std::get<1>(got), std::get<2>(got));
    DSIM_CHECK(g.size() == want.second.size(), "network-gradient", w + "gradient size");
    if (net.kink) return;
    DSIM_CHECK(near(g, want.second, net.mag), "network-gradient",
               w + "gradient " + hc::str(g) + " expected " + hc::str(want.second) + " at weights " + hc::str(r.w));
}
// the gradient after any history of changes
void gradient_history()
{
    Ref r = make_ann_ref(chance(1, 2));
    An e = make_ann(r, pick(100), chance(2, 3));
    for (unsigned i = 0, n = range(1, 4); i < n; ++i) {
        for (unsigned k = pick(4); k-- > 0;) dsim::event(step(e, r, true), i);
        const Data d = rnd_data(r, range(1, 3));
        check_gradient(e, r, d, 0u, "after a history");
    }
    dsim::nontrivial();
}
// one point at a time, added to what is there
void accumulate()
{
    Ref r = make_ann_ref(chance(1, 2));
    An e = make_ann(r, pick(100), chance(2, 3));
    double v = dsim::real(-2, 2);
    vd gw = hc::rnd_vd(r.w.size(), -2, 2), gb = hc::rnd_vd(r.b.size(), -2, 2);
    for (unsigned i = 0, n = range(1, 5); i < n; ++i) {
        if (chance(1, 3)) step(e, r, true);
        const Data d = rnd_data(r, 1);
        Net net{r};
        const auto want = net.loss(d.X, d.Y, 0, 1, d.ce, r.w, r.b);
        double v1 = v;
        vd gw1 = gw, gb1 = gb;
        if (chance(1, 3)) {
            vd p = d.X[0], y = d.Y[0];
            switch (pick(4)) {
                case 0: chance(1, 2) ? p.push_back(0.) : p.pop_back(); break;
                case 1: chance(1, 2) ? y.push_back(0.) : y.pop_back(); break;
                case 2: chance(1, 2) ? gw1.push_back(0.) : gw1.pop_back(); break;
                default: chance(1, 2) ? gb1.push_back(0.) : gb1.pop_back();
            }
            const vd gw2 = gw1, gb2 = gb1;
            bool threw = false;
            try {
                e.d_loss(v1, gw1, gb1, p, y, d.le());
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            DSIM_CHECK(threw, "network-rejects", "a point, label or result of the wrong size was accepted");
            DSIM_CHECK(hc::same(v1, v) && hc::same(gw1, gw2) && hc::same(gb1, gb2), "rejected-operation-had-effect",
                       "a rejected gradient was added");
            dsim::event("gradient-refused");
            continue;
        }
        e.d_loss(v1, gw1, gb1, d.X[0], d.Y[0], d.le());
        dsim::event("accumulated", dsim::bits(v1));
        if (net.mag > 1e6 || !std::isfinite(want.first) || net.kink) break;
        vd now = cat(gw1, gb1), sum = cat(gw, gb);
        for (std::size_t k = 0; k < sum.size(); ++k) sum[k] += want.second[k];
        DSIM_CHECK(std::fabs(v1 - (v + want.first)) <= 1e-8 * std::max(1., net.mag) && near(now, sum, net.mag), "network-gradient",
                   "accumulated " + hc::str(v1) + hc::str(now) + " expected " + hc::str(v + want.first) + hc::str(sum));
        v = v1, gw = gw1, gb = gb1;
    }
    vvd X(2, vd(r.s.n, 0.)), Y(pick(2) ? 3 : 1, vd(r.s.m, 0.));
    if (chance(1, 3)) X.clear(), Y.clear();
    bool threw = false;
    try {
        e.d_loss(X, Y, An::loss_type::MSE, pick(3));
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    DSIM_CHECK(threw, "network-rejects", "a gradient of no data, or with labels missing, was computed");
    dsim::nontrivial();
}
// parallel = sequential for every schedule; failures come out; nothing changes
void gradient_parallel(bool faults)
{
    dsim::configure_schedule();
    dsim::set_workers(range(0, 4));
    Ref r = make_ann_ref(true, true);
    An e = make_ann(r, pick(100));
    const unsigned N = dsim::rare(25) ? range(16, 64) : range(1, 8);
    Data d = rnd_data(r, N);
    const bool bad_row = faults && chance(1, 3), bad_label = faults && !bad_row && chance(1, 4);
    if (bad_row) d.X[pick(N)].push_back(1.);
    if (bad_label) d.Y[pick(N)].push_back(1.);
    unsigned par = range(1, N + 2);
    if (N % par && !chance(1, 5))
        while (N % par) --par;
    const std::string before = state(e);
    if (!bad_row && !bad_label && N % par == 0 && !faults) {
        check_gradient(e, r, d, par, "parallel");
    } else {
        std::uint64_t an = ~0ull;
        if (faults && dsim::fchance(1, 2)) an = dsim::fpick(10 + 14 * N);
        bool fired = false;
        int res = 0;
        std::tuple<double, vd, vd> got;
        if (an != ~0ull) dsim::arm_alloc_fault(an);
        try {
            got = e.d_loss(d.X, d.Y, d.le(), par);
        } catch (const std::bad_alloc &) {
            res = 1;
        } catch (const std::invalid_argument &) {
            res = 2;
        } catch (...) {
            res = 3;
        }
        if (an != ~0ull) fired = dsim::disarm_alloc_fault();
        dsim::event("gradient-fault", unsigned(res), fired);
        const std::string w = "N=" + std::to_string(N) + " parallel=" + std::to_string(par) + ": ";
        if (res == 0) {
            DSIM_CHECK(N % par == 0, "network-rejects", w + "an indivisible split was accepted");
            DSIM_CHECK(!bad_row && !bad_label, "network-rejects", w + "a malformed row was accepted");
            Net net{r};
            const auto want = net.loss(d.X, d.Y, 0, N, d.ce, r.w, r.b);
            if (net.mag < 1e6 && !net.kink && std::isfinite(want.first))
                DSIM_CHECK(near(cat(std::get<1>(got), std::get<2>(got)), want.second, net.mag)
                               && std::fabs(std::get<0>(got) - want.first) <= 1e-8 * std::max(1., net.mag),
                           "network-gradient", w + "wrong result after surviving a fault");
        } else if (res == 1) {
            DSIM_CHECK(fired, "network-errors", w + "bad_alloc without memory exhaustion");
            dsim::probe("gradient-failed-by-alloc");
        } else {
            DSIM_CHECK(res == 2 && (N % par || bad_row || bad_label), "network-errors", w + "unexpected exception");
            dsim::probe("gradient-rejected");
        }
    }
    DSIM_CHECK(state(e) == before, "read-had-effect", "computing a gradient changed the network");
    dsim::nontrivial();
}
// one epoch of the reference; trace[k] = weights and biases after k batches
struct Epoch {
    std::vector<vd> trace;
    double mean = 0;
    bool usable = true;
};
Epoch ref_epoch(const Ref &r, const vvd &X, const vvd &Y, bool ce, double lr, unsigned batch, std::size_t upto,
                double shift = 0.)
{
    Epoch ep;
    vd w = r.w, b = r.b;
    for (std::size_t i = 0; i < w.size(); ++i) w[i] += i % 2 ? -shift : shift;
    for (std::size_t i = 0; i < b.size(); ++i) b[i] += i % 2 ? -shift : shift;
    ep.trace.push_back(cat(w, b));
    double n = 0;
    for (std::size_t a = 0; a < upto; a += batch) {
        Net net{r};
        const std::size_t z = std::min<std::size_t>(a + batch, X.size());
        if (z > upto) break;
        const auto l = net.loss(X, Y, a, z, ce, w, b);
        if (net.kink || net.mag > 1e3 || !std::isfinite(l.first)) ep.usable = false;
        for (std::size_t i = 0; i < w.size(); ++i) w[i] -= lr * l.second[i];
        for (std::size_t i = 0; i < b.size(); ++i) b[i] -= lr * l.second[w.size() + i];
        ep.trace.push_back(cat(w, b));
        ep.mean += l.first;
        n += 1;
    }
    if (n > 0) ep.mean /= n;
    if (shift == 0. && ep.usable) // a few steps of descent may amplify rounding: then nothing can be compared
        for (double h : {1e-8, -1e-8}) {
            const Epoch q = ref_epoch(r, X, Y, ce, lr, batch, upto, h);
            double amp = std::fabs(q.mean - ep.mean);
            for (std::size_t i = 0; i < ep.trace.back().size(); ++i)
                amp = std::max(amp, std::fabs(q.trace.back()[i] - ep.trace.back()[i]));
            if (!(amp < 1e3 * std::fabs(h))) ep.usable = false;
        }
    if (shift == 0. && ep.usable) dsim::probe("training-compared");
    return ep;
}
// weights and biases that reach an output
vd influence(const Ref &r)
{
    vd f(r.w.size() + r.b.size(), 0.);
    for (unsigned v : r.s.active_nodes(r.x))
        if (v >= r.s.n) {
            for (unsigned j = 0; j < r.s.arity_of(v); ++j) f[r.s.weight_of(v) + j] = 1.;
            f[r.w.size() + v - r.s.n] = 1.;
        }
    return f;
}
void train(bool faults)
{
    dsim::configure_schedule();
    dsim::set_workers(range(0, 4));
    Ref r = make_ann_ref(true, true);
    An e = make_ann(r, pick(100));
    for (unsigned k = pick(3); k-- > 0;) step(e, r, true);
    const unsigned N = dsim::rare(25) ? range(16, 64) : range(1, 8);
    Data d = rnd_data(r, N);
    for (unsigned i = 0; i < N; ++i) d.X[i][0] += 4. * i; // rows are recognisable
    const vvd X0 = d.X, Y0 = d.Y;
    auto partner = [&](const vd &x) { // the target that belongs to an input
        for (unsigned i = 0; i < N; ++i)
            if (X0[i] == x) return int(i);
        return -1;
    };
    for (unsigned epoch = 0, ne = range(1, 2); epoch < ne; ++epoch) {
        unsigned batch = range(1, N + 1), par = pick(4);
        const double lr = 1. / 64.;
        const bool shuffle = chance(3, 4);
        const unsigned what = faults ? range(1, 8) : 0;
        auto divisible = [&] {
            const unsigned last = N % batch, full = std::min(batch, N);
            return par == 0 || (full % par == 0 && (N < batch || last % par == 0));
        };
        if (what != 1)
            while (!divisible()) --par;
        vvd X = d.X, Y = d.Y;
        double rate = lr;
        std::string loss = d.loss();
        bool must_reject = what == 1 && !divisible();
        int badrow = -1;
        if (what == 2) batch = 0, must_reject = true;
        if (what == 3) rate = pick(3) == 0 ? 0. : pick(2) ? -lr : std::nan(""), must_reject = true;
        if (what == 4) loss = "mse", must_reject = true;
        if (what == 5) {
            if (chance(1, 2)) Y.push_back(Y[0]);
            else X.clear(), Y.clear();
            must_reject = true;
        }
        if (what == 6) X[badrow = int(pick(N))].push_back(0.);
        const vvd Xin = X, Yin = Y;
        const std::string before = state(e);
        const bool no_entropy = what == 7;
        std::uint64_t an = what == 8 ? dsim::fpick(20 + 20 * N) : ~0ull;
        int res = 0;
        double got = 0;
        bool fired = false;
        if (no_entropy) dsim::arm_entropy_fault(true);
        if (an != ~0ull) dsim::arm_alloc_fault(an);
        try {
            got = e.sgd(X, Y, rate, batch, loss, par, shuffle);
        } catch (const std::bad_alloc &) {
            res = 1;
        } catch (const std::invalid_argument &) {
            res = 2;
        } catch (...) {
            res = 3;
        }
        if (an != ~0ull) fired = dsim::disarm_alloc_fault();
        if (no_entropy) dsim::arm_entropy_fault(false);
        dsim::event("sgd", dsim::bits(got), unsigned(res), what);
        const std::string w = "sgd N=" + std::to_string(N) + " batch=" + std::to_string(batch) + " parallel=" + std::to_string(par)
                              + " " + loss + " [" + r.s.str() + "]: ";
        DSIM_CHECK(!must_reject || res == 2, "network-rejects", w + "illegal arguments were not rejected");
        if (must_reject || (no_entropy && shuffle)) {
            if (no_entropy && shuffle) {
                DSIM_CHECK(res != 0, "network-errors", w + "trained although the entropy source failed");
                dsim::probe("training-without-entropy");
            }
            DSIM_CHECK(state(e) == before && hc::same(X, Xin) && hc::same(Y, Yin), "rejected-operation-had-effect",
                       w + "a rejected training call changed the network or the data");
            dsim::probe("training-rejected");
            continue;
        }
        // the data were permuted together
        std::vector<int> seen;
        DSIM_CHECK(X.size() == N && Y.size() == N, "data-pairing", w + "the size of the data changed");
        int bad_at = -1;
        for (unsigned i = 0; i < N; ++i) {
            vd x = X[i];
            if (x.size() > r.s.n) {
                bad_at = int(i);
                x.pop_back();
            }
            const int k = partner(x);
            DSIM_CHECK(k >= 0, "data-pairing", w + "an input was altered");
            DSIM_CHECK(hc::same(Y[i], Y0[unsigned(k)]), "data-pairing",
                       w + "input and target of a row were separated: " + hc::str(X[i]) + " -> " + hc::str(Y[i]));
            seen.push_back(k);
        }
        auto sorted = seen;
        std::sort(sorted.begin(), sorted.end());
        DSIM_CHECK(std::unique(sorted.begin(), sorted.end()) == sorted.end(), "data-pairing", w + "rows were duplicated");
        if (!shuffle) DSIM_CHECK(hc::same(X, Xin), "data-pairing", w + "the data were permuted without being asked");
        // training changed exactly what the sequential epoch changes
        const std::size_t upto = bad_at >= 0 ? std::size_t(bad_at) / batch * batch : N;
        const Epoch ep = ref_epoch(r, X, Y, d.ce, rate, batch, upto);
        const vd now = cat(e.get_weights(), e.get_biases());
        if (res == 0) {
            DSIM_CHECK(bad_at < 0, "network-rejects", w + "a malformed row was accepted");
            if (ep.usable) {
                DSIM_CHECK(near(now, ep.trace.back(), 10., 1e-8), "network-training",
                           w + "weights " + hc::str(now) + " expected " + hc::str(ep.trace.back()));
                DSIM_CHECK(std::fabs(got - ep.mean) <= 1e-7 * std::max(1., std::fabs(ep.mean)), "network-training",
                           w + "reported loss " + hc::str(got) + " expected " + hc::str(ep.mean));
            }
        } else {
            DSIM_CHECK((res == 1 && fired) || (res == 2 && bad_at >= 0), "network-errors", w + "unexpected exception");
            bool prefix = !ep.usable;
            for (auto &t : ep.trace) prefix |= near(now, t, 10., 1e-8);
            DSIM_CHECK(prefix, "network-training", w + "a failed epoch left weights that are not at a batch boundary");
            dsim::probe("training-failed-midway");
        }
        const vd inf = influence(r), old = cat(r.w, r.b);
        for (std::size_t i = 0; i < now.size(); ++i)
            DSIM_CHECK(inf[i] || hc::same(now[i], old[i]), "network-training",
                       w + "training changed a weight that does not influence any output");
        r.w = e.get_weights();
        r.b = e.get_biases();
        check_invariants(e, r, "after training");
        if (ep.usable) check_eval(e, r, "after training");
        if (what != 6) d.X = X, d.Y = Y;
        if (!ep.usable) break;
    }
    dsim::nontrivial();
}
// output nonlinearities, weight counts and randomisation
void outputs()
{
    Ref r = make_ann_ref(false);
    An e = make_ann(r, pick(100));
    for (unsigned i = 0, n = range(1, 5); i < n; ++i) {
        if (chance(1, 2)) step(e, r, true);
        static const char *nm[] = {"sum", "sig", "tanh", "ReLu", "ELU", "ISRU", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum",
                                   "abs", "step", "diff", "", "ReLU"};
        const std::string name = chance(2, 3) ? hc::kspecs()[r.ks[pick(r.s.nk)]].name : nm[pick(15)];
        int f = -1;
        for (unsigned k = r.s.nk; k-- > 0;)
            if (hc::kspecs()[r.ks[k]].name == name) f = int(k);
        bool input = false;
        for (unsigned o = 0; o < r.s.m; ++o) input |= r.x[r.x.size() - 1 - o] < r.s.n;
        if (f < 0 || input) {
            rejected(e, "set_output_f", [&] { e.set_output_f(name); });
        } else {
            e.set_output_f(name);
            for (unsigned o = 0; o < r.s.m; ++o) r.x[r.s.gene_of(r.x[r.x.size() - 1 - o])] = unsigned(f);
            dsim::probe("output-nonlinearity-set");
        }
        check_invariants(e, r, "set_output_f");
        check_eval(e, r, "set_output_f");
        unsigned na = 0, nu = 0;
        for (unsigned v : r.s.active_nodes(r.x))
            if (v >= r.s.n) {
                na += r.s.arity_of(v);
                std::set<unsigned> q;
                for (unsigned j = 1; j <= r.s.arity_of(v); ++j) q.insert(r.x[r.s.gene_of(v) + j]);
                nu += unsigned(q.size());
            }
        DSIM_CHECK(e.n_active_weights() == na && e.n_active_weights(true) == nu, "wrong-weights", "number of active weights");
        // randomisation is a function of its seed; without entropy it fails and changes nothing
        An c(e), dd(e);
        const unsigned seed = pick(50);
        c.randomise_weights(0.5, 0.25, seed);
        c.randomise_biases(0., 1., seed);
        dd.seed(7);
        dd.randomise_weights(0.5, 0.25, seed);
        dd.randomise_biases(0., 1., seed);
        DSIM_CHECK(c.get_weights() == dd.get_weights() && c.get_biases() == dd.get_biases(), "wrong-weights",
                   "randomisation with the same seed differs");
        for (unsigned k = 0; k < 2; ++k) {
            const double mean = dsim::real(-3, 3), sd = std::ldexp(1., -int(pick(30)));
            if (k) dd.randomise_biases(mean, sd, seed);
            else dd.randomise_weights(mean, sd, seed);
            for (double v : k ? dd.get_biases() : dd.get_weights())
                DSIM_CHECK(std::fabs(v - mean) <= 10. * sd, "wrong-weights",
                           "randomised to " + hc::str(v) + " with mean " + hc::str(mean) + " and deviation " + hc::str(sd));
        }
        DSIM_CHECK(c.get() == e.get(), "wrong-chromosome", "randomising weights changed the program");
        DSIM_CHECK(r.w.size() < 3 || c.get_weights() != e.get_weights(), "wrong-weights", "weights were not randomised");
        if (dsim::fchance(1, 3)) {
            dsim::arm_entropy_fault(true);
            bool threw = false;
            try {
                if (chance(1, 2)) e.randomise_weights();
                else e.randomise_biases();
            } catch (...) {
                threw = true;
            }
            dsim::arm_entropy_fault(false);
            DSIM_CHECK(threw && hc::same(e.get_weights(), r.w) && hc::same(e.get_biases(), r.b),
                       "rejected-operation-had-effect", "randomisation without entropy");
        }
    }
    dsim::nontrivial();
}
void ann_history()
{
    Ref r = make_ann_ref(chance(1, 2));
    An e = make_ann(r, pick(1000), chance(1, 2));
    check_invariants(e, r, "construction");
    for (unsigned i = 0, n = range(2, 14); i < n; ++i) {
        if (dsim::fchance(1, 6)) {
            const vu x = hc::rnd_chrom(r.lb, r.ub);
            const unsigned which = pick(3);
            const int res = hc::with_alloc_fault(dsim::fpick(16), [&] {
                if (which == 0) e.set(x);
                else if (which == 1) e.mutate_random(3);
                else {
                    An c(e);
                    c(vd(r.s.n, 0.5));
                }
            });
            DSIM_CHECK(res != 2, "unexpected-exception", "memory exhaustion surfaced as another exception");
            if (which == 2) check_invariants(e, r, "a failed copy");
            else {
                r.x = hc::rnd_chrom(r.lb, r.ub);
                e.set(r.x);
            }
        }
        const char *nm = step(e, r);
        dsim::event(nm, i);
        check_invariants(e, r, nm);
        if (chance(1, 2)) check_eval(e, r, nm);
        if (chance(1, 3)) check_formula(e, r, nm);
        if (chance(1, 4)) check_description(e, r, nm);
        if (chance(1, 4)) check_gradient(e, r, rnd_data(r, 1), 0u, nm);
    }
    // constructions with kernels that cannot be trained are rejected
    bool threw = false;
    try {
        static const unsigned bad[] = {1, 2, 3, 4, 10, 11, 12, 13, 14, 15, 16};
        const char *tr = hc::kspecs()[bad[pick(11)]].name;
        const char *ok = hc::kspecs()[ann_kernels(false)[pick(12)]].name;
        std::vector<std::string> names{ok, tr};
        if (chance(1, 2)) std::swap(names[0], names[1]);
        dcgp::kernel_set<double> ks(names);
        if (chance(1, 2)) An z(1, 1, 1, 2, 1, 2, ks(), 1u);
        else An z(1, 1, 1, 2, 1, vu{2, 3}, ks(), 1u);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    DSIM_CHECK(threw, "invalid-accepted", "a network with an untrainable kernel was accepted");
    threw = false;
    try {
        unsigned a[] = {1, 1, 1, 2, 1, 2};
        const unsigned k = pick(7);
        if (k < 6) a[k] = 0;
        dcgp::kernel_set<double> ks(std::vector<std::string>(k == 6 ? 0u : 1u, "sum"));
        if (chance(1, 2)) An z(a[0], a[1], a[2], a[3], a[4], a[5], ks(), 1u);
        else An z(a[0], a[1], a[2], a[3], a[4], vu(a[3], a[5]), ks(), 1u);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    DSIM_CHECK(threw, "invalid-accepted", "an impossible network was accepted");
    dsim::nontrivial();
}
void ann_round_trip()
{
    Ref r = make_ann_ref(true);
    An e = make_ann(r, pick(100));
    for (unsigned i = 0, n = pick(8); i < n; ++i) step(e, r, true);
    const bool text = chance(1, 2);
    const std::string s = hc::dump(e, text);
    An f;
    if (chance(2, 3)) {
        Ref q = make_ann_ref(true);
        f = make_ann(q, pick(100));
        for (unsigned i = 0, n = pick(5); i < n; ++i) step(f, q, true);
        dsim::probe("dirty-target");
    }
    if (dsim::fchance(1, 3)) {
        dsim::fault_fired("load-short-read");
        bool threw = false;
        try {
            hc::undump(s.substr(0, dsim::fpick(unsigned(s.size() - s.size() / 4))), f, text);
        } catch (...) {
            threw = true;
        }
        DSIM_CHECK(threw, "truncated-load-accepted", "a truncated archive of a network was loaded");
    }
    hc::undump(s, f, text);
    check_invariants(f, r, "loaded");
    DSIM_CHECK(state(e) == state(f), "round-trip", "the loaded network saves differently");
    DSIM_CHECK(hc::same(f.get_weights(), r.w) && hc::same(f.get_biases(), r.b), "round-trip", "weights or biases");
    const vd p = hc::rnd_vd(r.s.n, -2, 2);
    DSIM_CHECK(hc::same(e(p), f(p)), "round-trip", "the loaded network evaluates differently");
    const std::vector<std::string> sy(r.s.n, "x");
    DSIM_CHECK(e(sy) == f(sy), "round-trip", "the loaded network prints differently");
    std::ostringstream o1, o2;
    o1 << e;
    o2 << f;
    DSIM_CHECK(o1.str() == o2.str(), "round-trip", "the loaded network prints differently");
    const Data d = rnd_data(r, range(1, 3));
    const auto g1 = e.d_loss(d.X, d.Y, d.le()), g2 = f.d_loss(d.X, d.Y, d.le());
    DSIM_CHECK(hc::same(cat(std::get<1>(g1), std::get<2>(g1)), cat(std::get<1>(g2), std::get<2>(g2))), "round-trip",
               "the loaded network has another gradient");
    // the same future, training included
    Ref r2 = r;
    for (unsigned i = 0, n = range(1, 3); i < n; ++i) {
        const unsigned k = pick(5);
        vvd X1 = d.X, Y1 = d.Y, X2 = d.X, Y2 = d.Y;
        for (An *q : {&e, &f}) {
            if (k == 0) q->mutate_random(3);
            if (k == 1) q->mutate_active(2);
            if (k == 2) q->mutate_active_cgene(2);
            if (k == 3) q->mutate_ogene(1);
            if (k == 4) q == &e ? q->sgd(X1, Y1, 0.01, 2, d.loss(), 0, false) : q->sgd(X2, Y2, 0.01, 2, d.loss(), 0, false);
        }
        DSIM_CHECK(e.get() == f.get() && hc::same(e.get_weights(), f.get_weights()) && hc::same(e.get_biases(), f.get_biases()),
                   "round-trip", "the loaded network has another future");
    }
    const auto h1 = e.d_loss(d.X, d.Y, d.le()), h2 = f.d_loss(d.X, d.Y, d.le());
    DSIM_CHECK(hc::same(std::get<1>(h1), std::get<1>(h2)), "round-trip", "another gradient after the same changes");
    dsim::event("ann-round-trip", s.size());
    dsim::nontrivial();
}
void share_ann()
{
    dsim::configure_schedule();
    dsim::set_workers(range(0, 2));
    Ref r = make_ann_ref(true, true);
    An e0 = make_ann(r, pick(100));
    const An &e = e0;
    const unsigned T = range(2, 4), n = range(1, 3);
    const Data d = rnd_data(r, 4);
    vd want = e(d.X[0]);
    const auto sy = e(std::vector<std::string>(r.s.n, "x"));
    Net net{r};
    const auto g0 = net.loss(d.X, d.Y, 0, 4, d.ce, r.w, r.b);
    vd w1;
    {
        An c(e);
        vvd X = d.X, Y = d.Y;
        c.sgd(X, Y, 0.01, 2, d.loss(), 0, false);
        w1 = c.get_weights();
    }
    std::vector<std::vector<unsigned>> plan(T);
    for (auto &p : plan)
        for (unsigned i = 0; i < n; ++i) p.push_back(pick(5));
    std::vector<std::string> bad(T);
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < T; ++t)
        bodies.push_back([&, t] {
            for (unsigned op : plan[t]) {
                if (op == 0 && !hc::same(e(d.X[0]), want)) bad[t] = "concurrent evaluation returned another value";
                if (op == 1 && e(std::vector<std::string>(r.s.n, "x")) != sy) bad[t] = "concurrent symbolic evaluation";
                if (op == 2) {
                    double v = 0;
                    vd gw(r.w.size(), 0.), gb(r.b.size(), 0.);
                    for (unsigned i = 0; i < 4; ++i) e.d_loss(v, gw, gb, d.X[i], d.Y[i], d.le());
                    if (net.mag < 1e4 && std::fabs(v / 4 - g0.first) > 1e-7 * std::max(1., net.mag)) bad[t] = "concurrent loss";
                    for (auto &x : gw) x /= 4;
                    for (auto &x : gb) x /= 4;
                    if (net.mag < 1e4 && !net.kink && !near(cat(gw, gb), g0.second, net.mag, 1e-7))
                        bad[t] = "concurrent gradient";
                }
                if (op == 3) { // training a private copy
                    An c(e);
                    vvd X = d.X, Y = d.Y;
                    c.sgd(X, Y, 0.01, 2, d.loss(), t % 2 ? 2u : 0u, false);
                    if (net.mag < 1e3 && !near(c.get_weights(), w1, net.mag, 1e-7)) bad[t] = "training a private copy was disturbed";
                    c.mutate_random(2);
                    if (!hc::same(e.get_weights(), r.w)) bad[t] = "training a copy changed the shared network";
                }
                if (op == 4) {
                    std::ostringstream os;
                    os << e;
                    An c;
                    c = e;
                    if (c.n_active_weights() != e.n_active_weights()) bad[t] = "copy";
                }
                dsim::event("share", t, op);
            }
        });
    dsim::run_threads(bodies);
    for (auto &b : bad) DSIM_CHECK(b.empty(), "concurrent-result", b);
    check_invariants(e0, r, "after concurrent use");
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(C03, gradient, 3) { gradient_history(); }
DSIM_SCENARIO(C03, gradient_parallel, 3) { gradient_parallel(false); }
DSIM_SCENARIO(C03, gradient_faults, 3) { gradient_parallel(true); }
DSIM_SCENARIO(C03, training, 3) { train(false); }
DSIM_SCENARIO(C03, training_faults, 4) { train(true); }
DSIM_SCENARIO(C03, outputs, 2) { outputs(); }
DSIM_SCENARIO(C03, accumulate, 2) { accumulate(); }
DSIM_SCENARIO(E01, network_history, 4) { ann_history(); }
DSIM_SCENARIO(S01, network_round_trip, 3) { ann_round_trip(); }
DSIM_SCENARIO(C04, share_network, 2) { share_ann(); }
