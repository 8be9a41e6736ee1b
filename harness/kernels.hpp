// The documented meaning of the built-in kernels, written independently of the library.
#ifndef HARNESS_KERNELS_HPP
#define HARNESS_KERNELS_HPP
#include "common.hpp"
namespace hc
{
struct KSpec {
    const char *name;
    double (*f)(const vd &);
    unsigned min_arity;
};
inline double ksum(const vd &v)
{
    double s = 0;
    for (double x : v) s += x;
    return s;
}
inline double kprod(const vd &v, std::size_t from = 0)
{
    double s = 1;
    for (std::size_t i = from; i < v.size(); ++i) s *= v[i];
    return s;
}
inline const std::vector<KSpec> &kspecs()
{
    static const std::vector<KSpec> s = {
        {"sum", [](const vd &v) { return ksum(v); }, 1},
        {"diff",
         [](const vd &v) {
             double r = v[0];
             for (std::size_t i = 1; i < v.size(); ++i) r -= v[i];
             return r;
         },
         1},
        {"mul", [](const vd &v) { return kprod(v); }, 1},
        {"div",
         [](const vd &v) {
             double r = v[0];
             for (std::size_t i = 1; i < v.size(); ++i) r /= v[i];
             return r;
         },
         1},
        {"pdiv",
         [](const vd &v) {
             const double r = v[0] / kprod(v, 1);
             return std::isfinite(r) ? r : 1.;
         },
         2},
        {"sig", [](const vd &v) { return 1. / (1. + std::exp(-ksum(v))); }, 1},
        {"tanh", [](const vd &v) { return std::tanh(ksum(v)); }, 1},
        {"ReLu", [](const vd &v) { const double s = ksum(v); return s < 0 ? 0. : s; }, 1},
        {"ELU", [](const vd &v) { const double s = ksum(v); return s < 0 ? std::exp(s) - 1. : s; }, 1},
        {"ISRU", [](const vd &v) { const double s = ksum(v); return s / std::sqrt(1. + s * s); }, 1},
        {"sin", [](const vd &v) { return std::sin(v[0]); }, 1},
        {"cos", [](const vd &v) { return std::cos(v[0]); }, 1},
        {"log", [](const vd &v) { return std::log(v[0]); }, 1},
        {"exp", [](const vd &v) { return std::exp(v[0]); }, 1},
        {"gaussian", [](const vd &v) { return std::exp(-v[0] * v[0]); }, 1},
        {"sqrt", [](const vd &v) { return std::sqrt(v[0]); }, 1},
        {"psqrt", [](const vd &v) { return std::sqrt(std::fabs(v[0])); }, 1},
        {"sin_nu", [](const vd &v) { return std::sin(ksum(v)); }, 1},
        {"cos_nu", [](const vd &v) { return std::cos(ksum(v)); }, 1},
        {"gaussian_nu", [](const vd &v) { const double s = ksum(v); return std::exp(-s * s); }, 1},
        {"inv_sum", [](const vd &v) { return -ksum(v); }, 1},
        {"abs", [](const vd &v) { return std::fabs(ksum(v)); }, 1},
        {"step", [](const vd &v) { return ksum(v) < 0. ? 0. : 1.; }, 1},
    };
    return s;
}
// picks distinct kernels; smooth: no poles, no saturation to infinity for moderate arguments
inline std::vector<unsigned> pick_kernels(unsigned lo, unsigned hi, bool smooth, unsigned min_arity_available)
{
    static const unsigned sm[] = {0, 1, 2, 5, 6, 8, 9, 10, 11, 14, 17, 18, 19, 20};
    const unsigned n = range(lo, hi);
    std::vector<unsigned> r;
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = smooth ? sm[pick(14)] : pick(unsigned(kspecs().size()));
        if (kspecs()[k].min_arity > min_arity_available) k = 0;
        r.push_back(k);
    }
    return r;
}
inline std::vector<std::string> kernel_names(const std::vector<unsigned> &ks)
{
    std::vector<std::string> r;
    for (auto k : ks) r.push_back(kspecs()[k].name);
    return r;
}
} // namespace hc
#endif
