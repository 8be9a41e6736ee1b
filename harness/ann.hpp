#ifndef HARNESS_ANN_HPP
#define HARNESS_ANN_HPP
#include "expr.hpp"
#include <dcgp/expression_ann.hpp>
using An = dcgp::expression_ann;
namespace hx
{
inline const std::vector<unsigned> &ann_kernels(bool smooth)
{
    static const std::vector<unsigned> all = {0, 5, 6, 7, 8, 9, 17, 18, 19, 20, 21, 22};
    static const std::vector<unsigned> sm = {0, 5, 6, 8, 9, 17, 18, 19, 20};
    return smooth ? sm : all;
}
inline Ref make_ann_ref(bool smooth, bool small = false)
{
    Ref r;
    r.weighted = r.ann = true;
    r.s = hc::rnd_shape(3, 3, small ? 2 : 3, small ? 3 : 5, 1, chance(1, 3), 3);
    const auto &ks = ann_kernels(smooth);
    for (unsigned i = 0, n = range(1, small ? 3 : 6); i < n; ++i) r.ks.push_back(ks[pick(unsigned(ks.size()))]);
    r.s.nk = unsigned(r.ks.size());
    r.s.bounds(r.lb, r.ub);
    return r;
}
inline An make_ann(Ref &r, unsigned seed, bool randomise = true)
{
    const bool uniform = std::all_of(r.s.arity.begin(), r.s.arity.end(), [&](unsigned a) { return a == r.s.arity[0]; });
    An e = uniform && chance(1, 2) ? An(r.s.n, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity[0], kernels(r), seed)
                                   : An(r.s.n, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, kernels(r), seed);
    adopt(r, e);
    r.w = e.get_weights();
    r.b = e.get_biases();
    std::size_t nw = 0;
    for (auto a : r.s.arity) nw += std::size_t(a) * r.s.r;
    DSIM_CHECK(r.w == vd(nw, 1.) && r.b == vd(r.s.r * r.s.c, 0.), "wrong-weights", "initial weights or biases");
    if (randomise) {
        r.w = hc::rnd_vd(r.w.size(), -2, 2);
        r.b = hc::rnd_vd(r.b.size(), -1, 1);
        e.set_weights(r.w);
        e.set_biases(r.b);
    }
    return e;
}

// ---- reference derivative: forward mode over all weights and biases --------------------------------
struct Dual {
    double v = 0;
    vd g;
};
struct Net {
    const Ref &r;
    bool kink = false;
    double mag = 0;
    double deriv(unsigned k, double s, double f)
    {
        switch (k) {
            case 0: return 1.;
            case 5: return f * (1. - f);
            case 6: return 1. - f * f;
            case 7: kink |= std::fabs(s) < 1e-9; return s > 0 ? 1. : 0.;
            case 8: return s > 0 ? 1. : std::exp(s);
            case 9: return std::pow(1. + s * s, -1.5);
            case 17: return std::cos(s);
            case 18: return -std::sin(s);
            case 19: return -2. * s * std::exp(-s * s);
            case 20: return -1.;
            case 21: kink |= std::fabs(s) < 1e-9; return s < 0 ? -1. : 1.;
            default: kink |= std::fabs(s) < 1e-9; return 0.;
        }
    }
    std::vector<Dual> eval(const vd &p, const vd &w, const vd &b)
    {
        const std::size_t G = w.size() + b.size();
        std::vector<Dual> in;
        for (double x : p) in.push_back({x, vd(G, 0.)});
        return r.s.eval<Dual>(r.x, in, [&](unsigned k, std::vector<Dual> args, unsigned node) {
            vd a;
            Dual out{0, vd(G, 0.)};
            vd ds(G, 0.);
            for (unsigned j = 0; j < args.size(); ++j) {
                const unsigned wi = r.s.weight_of(node) + j;
                a.push_back(args[j].v * w[wi]);
                for (std::size_t i = 0; i < G; ++i) ds[i] += args[j].g[i] * w[wi];
                ds[wi] += args[j].v;
            }
            a[0] += b[node - r.s.n];
            ds[w.size() + node - r.s.n] += 1.;
            out.v = hc::kspecs()[r.ks[k]].f(a);
            const double d = deriv(r.ks[k], hc::ksum(a), out.v);
            for (std::size_t i = 0; i < G; ++i) {
                out.g[i] = d * ds[i];
                mag = std::max(mag, std::fabs(out.g[i]));
            }
            mag = std::max(mag, std::fabs(out.v));
            return out;
        });
    }
    // mean loss over [a,b) and its gradient
    std::pair<double, vd> loss(const vvd &X, const vvd &Y, std::size_t a, std::size_t b, bool ce, const vd &w, const vd &bi)
    {
        const std::size_t G = w.size() + bi.size();
        double L = 0;
        vd g(G, 0.);
        for (std::size_t i = a; i < b; ++i) {
            auto o = eval(X[i], w, bi);
            const std::size_t m = o.size();
            if (!ce) {
                for (std::size_t j = 0; j < m; ++j) {
                    const double e = o[j].v - Y[i][j];
                    L += e * e / double(m);
                    for (std::size_t q = 0; q < G; ++q) g[q] += 2. * e * o[j].g[q] / double(m);
                }
            } else {
                double mx = -INFINITY, cs = 0;
                for (auto &d : o) mx = std::max(mx, d.v);
                for (auto &d : o) cs += std::exp(d.v - mx);
                for (std::size_t j = 0; j < m; ++j) {
                    const double pj = std::exp(o[j].v - mx) / cs;
                    L -= std::log(pj) * Y[i][j];
                    for (std::size_t q = 0; q < G; ++q) g[q] += (pj - Y[i][j]) * o[j].g[q];
                }
            }
        }
        const double n = double(b - a);
        for (double &x : g) {
            x /= n;
            mag = std::max(mag, std::fabs(x));
        }
        return {L / n, g};
    }
};
inline bool near(const vd &a, const vd &b, double mag, double tol = 1e-8)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!(std::fabs(a[i] - b[i]) <= tol * std::max(1., mag))) return false;
    return true;
}
inline vd cat(const vd &a, const vd &b)
{
    vd c(a);
    c.insert(c.end(), b.begin(), b.end());
    return c;
}
} // namespace hx
#endif
