// E07: what the learning steps of the memetic and gradient algorithms do to the constants
#include "newton.hpp"

namespace
{
void memetic(int kernels)
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 3));
    Cfg c = rnd_cfg(chance(1, 2) ? MES : MOMES, 1);
    c.gen = 1;
    c.mut = range(1, 4);
    c.ftol = 0.;
    PRef q = rnd_problem(c, kernels, false);
    if (q.r.neph < 2 && chance(3, 4)) {
        const unsigned add = range(1, 2);
        q.r.neph += add;
        q.r.s.n += add;
        q.r.s.bounds(q.r.lb, q.r.ub);
    }
    if (q.r.neph == 0) return;
    if (kernels == 2) q.r.limit = double(range(20, 100));
    const unsigned np = rnd_np(2, 6), n = q.r.neph;
    std::optional<pagmo::population> pp;
    std::optional<Sr> fresh;
    try {
        dsim::Quiet quiet;
        pp.emplace(pagmo::problem(q.build()), np, pick(1000));
        // constants away from anything useful: steps pay off
        if (chance(2, 3))
            for (unsigned i = 0; i < np; ++i) {
                vd x = pp->get_x()[i];
                for (unsigned k = 0; k < n; ++k) x[k] = double(range(0, 64)) / 4. - 8.;
                pp->set_x(i, x);
            }
    } catch (const bad_point &) {
        return;
    }
    {
        PRef s = q;
        s.par = 0;
        s.r.limit = 1e300;
        fresh.emplace(s.build());
    }
    pagmo::population &pop = *pp;
    for (unsigned step = 0, N = range(1, 4); step < N; ++step) {
        c.seed = pick(10000);
        const std::string w = c.str() + " [" + q.str() + "]: ";
        const Out old = snapshot(pop);
        const long oom = dsim::fchance(1, 8) ? long(dsim::fpick(3000)) : -1;
        bool fired = false;
        const Out now = evolve(c, pop, oom, &fired);
        dsim::event("learned", dsim::bits(now.x[0][0]), now.fevals, unsigned(now.err));
        if (now.err) {
            dsim::fault_fired(now.err == 1 ? "evolve-out-of-memory" : "failed-evaluation");
            if (now.err != 1) break;
            continue;
        }
        dsim::Quiet quiet;
        double best = NAN;
        for (auto &f : old.f)
            if (std::isnan(best) || f[0] < best) best = f[0];
        for (unsigned i = 0; i < np; ++i) {
            bool is_old = false;
            for (unsigned j = 0; j < np; ++j) is_old |= hc::same(old.x[j], now.x[i]);
            if (is_old) continue;
            // some parent, mutated into this expression, learns these constants
            std::string why;
            bool ok = false, decided = false, moved = false;
            for (unsigned j = 0; j < np && !ok; ++j) {
                if (c.kind == MES && !std::isnan(old.f[j][0]) && old.f[j][0] > best) continue;
                vd from = now.x[i];
                std::copy(old.x[j].begin(), old.x[j].begin() + n, from.begin());
                const Newton e = explain(*fresh, n, from, now.x[i]);
                ok = e.why.empty();
                if (ok) decided = e.decided, moved = e.moved;
                else if (why.empty() || why.size() > e.why.size()) why = e.why;
            }
            DSIM_CHECK(ok, "wrong-step", w + why + " (individual " + hc::str(now.x[i]) + ")");
            if (decided) dsim::probe(moved ? "step-taken" : "step-refused");
            dsim::nontrivial();
        }
    }
}
// gradient descent, iteration by iteration: runs of 1, 2, ... iterations from the same start
void descent()
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 3));
    Cfg c = rnd_cfg(GD, 1);
    c.verb = pick(3);
    PRef q = rnd_problem(c, pick(4) ? 1 : 0, false);
    const unsigned np = rnd_np(2, 4), n = q.r.neph;
    const unsigned sel = pick(np), rep = pick(np);
    c.sel = std::to_string(sel);
    c.rep = std::to_string(rep);
    std::optional<pagmo::population> pp;
    std::optional<Sr> fresh;
    {
        dsim::Quiet quiet;
        pp.emplace(pagmo::problem(q.build()), np, pick(1000));
        PRef s = q;
        s.par = 0;
        fresh.emplace(s.build());
    }
    vd x = pp->get_x()[sel];
    double f = pp->get_f()[sel][0], lr = c.lr;
    const unsigned K = range(2, 7);
    bool over = false;
    std::string how;
    for (unsigned k = 1; k <= K; ++k) {
        c.gen = k;
        pagmo::population pop(*pp);
        const Out now = evolve(c, pop);
        const std::string w = c.str() + " [" + q.str() + "]: iteration " + std::to_string(k) + " from " + hc::str(pp->get_x()[sel]) + how + ": ";
        DSIM_CHECK(!now.err, "wrong-error", w + now.what);
        dsim::event("descended", dsim::bits(now.x[rep][0]), now.fevals, now.gevals);
        for (unsigned i = 0; i < np; ++i)
            if (i != rep)
                DSIM_CHECK(hc::same(now.x[i], pp->get_x()[i]), "collateral-change", w + "individual " + std::to_string(i));
        if (!std::isfinite(pp->get_f()[sel][0])) {
            DSIM_CHECK(hc::same(now.x[rep], pp->get_x()[rep]), "wrong-step", w + "a loss that is not finite was followed");
            continue;
        }
        dsim::Quiet quiet;
        vd g;
        double norm = 0;
        if (!over) {
            g = fresh->gradient(x);
            for (double v : g) norm += v * v;
            norm = std::sqrt(norm);
            if (!std::isfinite(norm) || norm < 1e-13) over = true;
            if (norm > 0.9e-13 && norm < 1.1e-13) return;
        }
        const vd &got = now.x[rep];
        if (over) {
            DSIM_CHECK(hc::same(got, x), "wrong-step", w + "moved to " + hc::str(got) + " from " + hc::str(x) + " where there is nothing to follow");
            continue;
        }
        vd y(x);
        double big = 1.;
        for (unsigned i = 0; i < n; ++i) {
            y[i] -= g[i] / norm * lr;
            big = std::max(big, std::fabs(x[i]) + lr);
        }
        bool at_y = true, at_x = hc::same(got, x);
        for (unsigned i = 0; i < n; ++i) at_y &= near(got[i], y[i], big, 1e-12);
        at_y &= std::equal(got.begin() + n, got.end(), x.begin() + n);
        const double fy = fresh->fitness(y)[0];
        const double eps = 1e-9 * std::max({std::fabs(f), std::fabs(fy), 1e-9});
        if (std::isnan(fy) || fy > f + eps)
            DSIM_CHECK(at_x, "wrong-step", w + "moved from " + hc::str(x) + " " + hc::str(f) + " to " + hc::str(got) + ", the step leads to " + hc::str(y) + " " + hc::str(fy));
        else if (fy < f - eps)
            DSIM_CHECK(at_y, "wrong-step",
                       w + "the step of length " + hc::str(lr) + " along the gradient " + hc::str(g) + " leads from " + hc::str(x)
                           + " to " + hc::str(y) + " and improves " + hc::str(f) + " to " + hc::str(fy) + ", but it is at " + hc::str(got));
        else {
            DSIM_CHECK(at_x || at_y, "wrong-step", w + "at " + hc::str(got) + " instead of " + hc::str(x) + " or " + hc::str(y));
            if (at_x && at_y) return; // cannot tell
        }
        if (at_y && !at_x) {
            x = got;
            f = fresh->fitness(x)[0];
            lr *= 1.5;
            how += " +";
        } else {
            lr /= 4.;
            how += " -";
            if (lr < c.lrmin) over = true;
            if (std::fabs(lr - c.lrmin) < 1e-12 * lr) return;
        }
        dsim::probe(at_y ? "descent-accepted" : "descent-rejected");
        dsim::nontrivial();
    }
}
} // namespace

DSIM_SCENARIO(E07, smooth_kernels, 3) { memetic(1); }
DSIM_SCENARIO(E07, any_kernels, 1) { memetic(0); }
DSIM_SCENARIO(E07, failing_kernel, 1) { memetic(2); }
DSIM_SCENARIO(E07, descent, 2) { descent(); }
