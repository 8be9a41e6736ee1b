#ifndef VSHIM_AUDI_FUNCTIONS_HPP
#define VSHIM_AUDI_FUNCTIONS_HPP
#include <audi/gdual.hpp>
#include <cmath>
namespace audi
{
inline double exp(double x) { return std::exp(x); }
inline double log(double x) { return std::log(x); }
inline double sin(double x) { return std::sin(x); }
inline double cos(double x) { return std::cos(x); }
inline double tanh(double x) { return std::tanh(x); }
inline double sqrt(double x) { return std::sqrt(x); }
inline double abs(double x) { return std::abs(x); }

template <typename C>
inline gdual<C> exp(const gdual<C> &g)
{
    const C e = detail_gd::cf_traits<C>::map(g.constant_cf(), [](double x) { return std::exp(x); });
    std::vector<C> d;
    double f = 1.;
    for (unsigned k = 0; k <= g.get_order(); ++k) {
        if (k) f *= k;
        d.push_back(e / C(f));
    }
    return g.compose(d);
}
template <typename C>
inline gdual<C> log(const gdual<C> &g)
{
    const C c0 = g.constant_cf();
    std::vector<C> d;
    d.push_back(detail_gd::cf_traits<C>::map(c0, [](double x) { return std::log(x); }));
    C p = C(1.);
    for (unsigned k = 1; k <= g.get_order(); ++k) {
        p = p / c0;
        d.push_back(p * C((k % 2u) ? 1. / k : -1. / k));
    }
    return g.compose(d);
}
namespace detail_gd
{
template <typename C>
inline gdual<C> trig(const gdual<C> &g, unsigned shift)
{
    const C s = cf_traits<C>::map(g.constant_cf(), [](double x) { return std::sin(x); });
    const C c = cf_traits<C>::map(g.constant_cf(), [](double x) { return std::cos(x); });
    std::vector<C> d;
    double f = 1.;
    for (unsigned k = 0; k <= g.get_order(); ++k) {
        if (k) f *= k;
        switch ((k + shift) % 4u) {
            case 0u:
                d.push_back(s / C(f));
                break;
            case 1u:
                d.push_back(c / C(f));
                break;
            case 2u:
                d.push_back(-s / C(f));
                break;
            default:
                d.push_back(-c / C(f));
        }
    }
    return g.compose(d);
}
} // namespace detail_gd
template <typename C>
inline gdual<C> sin(const gdual<C> &g)
{
    return detail_gd::trig(g, 0u);
}
template <typename C>
inline gdual<C> cos(const gdual<C> &g)
{
    return detail_gd::trig(g, 1u);
}
template <typename C>
inline gdual<C> sqrt(const gdual<C> &g)
{
    const C c0 = g.constant_cf();
    std::vector<C> d;
    C cur = detail_gd::cf_traits<C>::map(c0, [](double x) { return std::sqrt(x); });
    for (unsigned k = 0; k <= g.get_order(); ++k) {
        d.push_back(cur);
        cur = cur * C((0.5 - k) / (k + 1.)) / c0;
    }
    return g.compose(d);
}
template <typename C>
inline gdual<C> tanh(const gdual<C> &g)
{
    // (e^{2x}-1)/(e^{2x}+1), constant coefficient replaced by the exact tanh
    const C t = detail_gd::cf_traits<C>::map(g.constant_cf(), [](double x) { return std::tanh(x); });
    std::vector<C> d;
    d.push_back(t);
    // tanh' = 1 - t^2, recursively via polynomial coefficients in t
    std::vector<double> p{0., 1.}; // polynomial in t representing the k-th derivative
    double f = 1.;
    for (unsigned k = 1; k <= g.get_order(); ++k) {
        f *= k;
        std::vector<double> q(p.size() + 1u, 0.);
        for (std::size_t i = 1; i < p.size(); ++i) { // d/dx t^i = i t^{i-1} (1-t^2)
            q[i - 1] += p[i] * double(i);
            q[i + 1] -= p[i] * double(i);
        }
        p = q;
        C v = C(0.);
        for (std::size_t i = p.size(); i-- > 0;) v = v * t + C(p[i]);
        d.push_back(v / C(f));
    }
    return g.compose(d);
}
inline gdual<double> abs(const gdual<double> &g)
{
    return g.constant_cf() < 0. ? -g : g;
}
inline gdual<vectorized<double>> abs(const gdual<vectorized<double>> &g)
{
    auto c = g.constant_cf();
    for (auto &v : c) v = v < 0. ? -1. : 1.;
    return g * c;
}
} // namespace audi
#endif
