// One learning step of second order, decided independently of the code under test.
#ifndef HARNESS_NEWTON_HPP
#define HARNESS_NEWTON_HPP
#include "evo.hpp"

namespace hx
{
using Mat = std::vector<vd>;
// eigenvalues of a symmetric matrix (cyclic Jacobi)
inline vd eigenvalues(Mat a)
{
    const std::size_t n = a.size();
    for (int sweep = 0; sweep < 60; ++sweep)
        for (std::size_t p = 0; p < n; ++p)
            for (std::size_t q = p + 1; q < n; ++q) {
                if (a[p][q] == 0.) continue;
                const double th = (a[q][q] - a[p][p]) / (2. * a[p][q]);
                const double t = (th >= 0. ? 1. : -1.) / (std::fabs(th) + std::sqrt(th * th + 1.));
                const double c = 1. / std::sqrt(t * t + 1.), s = t * c;
                for (std::size_t k = 0; k < n; ++k) {
                    const double x = a[k][p], y = a[k][q];
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for (std::size_t k = 0; k < n; ++k) {
                    const double x = a[p][k], y = a[q][k];
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
    vd e(n);
    for (std::size_t i = 0; i < n; ++i) e[i] = a[i][i];
    return e;
}
// solves a x = b (Gauss, full row pivoting)
inline vd solve(Mat a, vd b)
{
    const std::size_t n = b.size();
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t p = i;
        for (std::size_t k = i; k < n; ++k)
            if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k;
        std::swap(a[i], a[p]);
        std::swap(b[i], b[p]);
        for (std::size_t k = i + 1; k < n; ++k) {
            const double f = a[k][i] / a[i][i];
            for (std::size_t j = i; j < n; ++j) a[k][j] -= f * a[i][j];
            b[k] -= f * b[i];
        }
    }
    for (std::size_t i = n; i-- > 0;) {
        for (std::size_t j = i + 1; j < n; ++j) b[i] -= a[i][j] * b[j];
        b[i] /= a[i][i];
    }
    return b;
}
inline bool near(double a, double b, double scale, double tol)
{
    return a == b || std::fabs(a - b) <= tol * std::max({1., std::fabs(a), std::fabs(b), scale});
}
// What one step of second order does to the constants c of an expression: whether `to` may be its outcome. The gradient
// and the second derivatives are those a fresh problem reports.
struct Newton {
    bool decided = false; // the outcome is determined: the derivatives are finite and well conditioned
    bool moved = false;   // a step is taken
    std::string why;
};
inline Newton explain(const Sr &s, unsigned n, const vd &from, const vd &to)
{
    Newton r;
    const vd g = s.gradient(from);
    const vd h = s.hessians(from)[0];
    std::vector<unsigned> act;
    for (unsigned i = 0; i < n; ++i)
        if (g[i] != 0. || n == 1) act.push_back(i);
    auto H = [&](unsigned i, unsigned j) { return h[std::max(i, j) * (std::max(i, j) + 1) / 2 + std::min(i, j)]; };
    bool unmoved = true;
    for (unsigned i : act) unmoved &= hc::same(from[i], to[i]);
    for (unsigned i = 0; i < n; ++i) {
        if (std::find(act.begin(), act.end(), i) != act.end()) continue;
        if (!(hc::same(from[i], to[i]) || (to[i] >= -10. && to[i] <= 10.)))
            r.why = "constant " + std::to_string(i) + ", on which nothing depends, leaves its box";
    }
    if (!r.why.empty() || act.empty()) return r;
    bool fin = true;
    for (unsigned i : act) {
        fin &= std::isfinite(g[i]);
        for (unsigned j : act) fin &= std::isfinite(H(i, j));
    }
    if (!fin) {
        // nothing to learn from
        if (!unmoved) r.why = "constants were changed although the derivatives are not finite";
        return r;
    }
    vd want(from);
    bool must = true, may = true;
    double cond = 1., scale = 0.;
    if (act.size() == 1) {
        const unsigned k = act[0];
        if (H(k, k) == 0.) must = may = false;
        else want[k] = from[k] - g[k] / H(k, k);
        r.decided = true;
    } else {
        Mat a(act.size(), vd(act.size()));
        vd b(act.size());
        for (std::size_t i = 0; i < act.size(); ++i) {
            b[i] = g[act[i]];
            for (std::size_t j = 0; j < act.size(); ++j) a[i][j] = H(act[i], act[j]);
        }
        vd e = eigenvalues(a);
        double mn = e[0], mx = 0.;
        for (double v : e) {
            mn = std::min(mn, v);
            mx = std::max(mx, std::fabs(v));
        }
        if (!(mx > 0.) || !std::isfinite(mx)) {
            must = false;
            may = mx > 0.;
        } else if (mn > 1e-6 * mx) r.decided = true;
        else {
            must = false;
            if (mn < -1e-6 * mx) {
                may = false;
                r.decided = true;
            }
        }
        double small = INFINITY;
        for (double v : e) small = std::min(small, std::fabs(v));
        cond = small > 0. ? mx / small : INFINITY;
        if (may && cond < 1e12) {
            const vd d = solve(a, b);
            for (std::size_t i = 0; i < act.size(); ++i) {
                want[act[i]] = from[act[i]] - d[i];
                scale = std::max({scale, std::fabs(d[i]), std::fabs(from[act[i]])});
            }
        }
    }
    bool hit = true;
    for (unsigned i : act) hit &= near(to[i], want[i], scale, 1e-12 * std::max(cond, 100.));
    if (act.size() > 1 && !(cond < 1e12)) hit = true; // no reference for the step
    if (hit && may) {
        r.moved = !unmoved;
        return r;
    }
    if (unmoved && !must) return r;
    r.why = std::string(!may ? "no step may be taken" : must ? "the step must be taken" : "a step may be taken") + ": constants "
            + hc::str(from) + " became " + hc::str(to) + ", the derivatives " + hc::str(g) + hc::str(h) + " say " + hc::str(want);
    return r;
}
} // namespace hx
#endif
