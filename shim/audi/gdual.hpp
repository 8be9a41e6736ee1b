// Stand-in for audi::gdual (AuDi is not installed in this sandbox): truncated Taylor
// polynomials over a named symbol set, arbitrary (small) order, real arithmetic.
#ifndef VSHIM_AUDI_GDUAL_HPP
#define VSHIM_AUDI_GDUAL_HPP
#include <algorithm>
#include <audi/vectorized.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <cmath>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace audi
{
namespace detail_gd
{
template <typename T>
struct cf_traits;
template <>
struct cf_traits<double> {
    template <typename F>
    static double map(const double &x, F f)
    {
        return f(x);
    }
};
template <>
struct cf_traits<vectorized<double>> {
    template <typename F>
    static vectorized<double> map(vectorized<double> x, F f)
    {
        for (auto &v : x) v = f(v);
        return x;
    }
};
} // namespace detail_gd

template <typename Cf>
class gdual
{
public:
    using cf_type = Cf;
    using key = std::vector<unsigned>;

    gdual() : m_order(0u) { m_p[key{}] = Cf(0.); }
    gdual(const gdual &) = default;
    gdual(gdual &&o) noexcept
        : m_order(o.m_order), m_s(std::move(o.m_s)), m_p(std::move(o.m_p))
    {
    }
    gdual &operator=(const gdual &) = default;
    gdual &operator=(gdual &&) = default;

    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value
                                               || (std::is_same<Cf, vectorized<double>>::value
                                                   && (std::is_same<U, std::vector<double>>::value)),
                                           int> = 0>
    explicit gdual(const U &v) : m_order(0u)
    {
        m_p[key{}] = Cf(v);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value
                                               || (std::is_same<Cf, vectorized<double>>::value
                                                   && (std::is_same<U, std::vector<double>>::value)),
                                           int> = 0>
    explicit gdual(const U &v, const std::string &symbol, unsigned order) : m_order(order)
    {
        if (!symbol.empty() && symbol[0] == 'd') {
            throw std::invalid_argument("symbol names cannot start with the letter d");
        }
        if (order == 0u) {
            m_p[key{}] = Cf(v);
        } else {
            m_s.push_back("d" + symbol);
            m_p[key{0u}] = Cf(v);
            m_p[key{1u}] = Cf(1.);
        }
    }

    unsigned get_order() const { return m_order; }
    const std::vector<std::string> &get_symbol_set() const { return m_s; }
    std::size_t get_symbol_set_size() const { return m_s.size(); }
    Cf constant_cf() const { return coeff(key(m_s.size(), 0u)); }
    unsigned degree() const
    {
        unsigned r = 0u;
        for (const auto &t : m_p) {
            unsigned d = deg(t.first);
            if (d > r) r = d;
        }
        return r;
    }
    Cf find_cf(const key &k) const { return coeff(k); }
    // derivative = coefficient * prod(k_i!)
    Cf get_derivative(const std::vector<unsigned> &c) const
    {
        if (c.size() != m_s.size()) throw std::invalid_argument("derivative multi-index has the wrong size");
        Cf r = coeff(c);
        double f = 1.;
        for (auto e : c)
            for (unsigned j = 2u; j <= e; ++j) f *= j;
        r *= Cf(f);
        return r;
    }
    void extend_symbol_set(const std::vector<std::string> &sym_vars)
    {
        std::vector<std::string> tgt(sym_vars);
        std::sort(tgt.begin(), tgt.end());
        tgt.erase(std::unique(tgt.begin(), tgt.end()), tgt.end());
        for (const auto &s : m_s)
            if (std::find(tgt.begin(), tgt.end(), s) == tgt.end()) {
                throw std::invalid_argument("The symbol vector does not contain all symbols of the gdual");
            }
        remap(tgt);
    }

    gdual &operator+=(const gdual &o) { return *this = add(*this, o, false); }
    gdual &operator-=(const gdual &o) { return *this = add(*this, o, true); }
    gdual &operator*=(const gdual &o) { return *this = mul(*this, o); }
    gdual &operator/=(const gdual &o) { return *this = mul(*this, o.inverse()); }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator+=(const U &o)
    {
        return *this += gdual(o);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator-=(const U &o)
    {
        return *this -= gdual(o);
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator*=(const U &o)
    {
        const Cf c(o);
        for (auto &t : m_p) t.second *= c;
        return *this;
    }
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>
    gdual &operator/=(const U &o)
    {
        const Cf c(o);
        for (auto &t : m_p) t.second /= c;
        return *this;
    }
    gdual operator-() const
    {
        gdual r(*this);
        for (auto &t : r.m_p) t.second = -t.second;
        return r;
    }
    gdual operator+() const { return *this; }

#define VSHIM_BIN(op, opeq)                                                                                            \
    friend gdual operator op(gdual a, const gdual &b) { return a opeq b; }                                             \
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>       \
    friend gdual operator op(gdual a, const U &b)                                                                      \
    {                                                                                                                  \
        return a opeq b;                                                                                               \
    }                                                                                                                  \
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value || std::is_same<U, Cf>::value, int> = 0>       \
    friend gdual operator op(const U &a, const gdual &b)                                                               \
    {                                                                                                                  \
        gdual r(a);                                                                                                    \
        r opeq b;                                                                                                      \
        return r;                                                                                                      \
    }
    VSHIM_BIN(+, +=)
    VSHIM_BIN(-, -=)
    VSHIM_BIN(*, *=)
    VSHIM_BIN(/, /=)
#undef VSHIM_BIN
    friend bool operator==(const gdual &a, const gdual &b)
    {
        gdual x(a), y(b);
        merge(x, y);
        gdual d = add(x, y, true);
        for (const auto &t : d.m_p)
            if (!(t.second == Cf(0.))) return false;
        return true;
    }
    friend bool operator!=(const gdual &a, const gdual &b) { return !(a == b); }
    // As in AuDi: ordering looks at the constant coefficient only.
    friend bool operator<(const gdual &a, const gdual &b) { return a.constant_cf() < b.constant_cf(); }
    friend bool operator>(const gdual &a, const gdual &b) { return a.constant_cf() > b.constant_cf(); }
    friend std::ostream &operator<<(std::ostream &os, const gdual &d)
    {
        bool first = true;
        for (const auto &t : d.m_p) {
            if (!first) os << "+";
            first = false;
            os << t.second;
            for (std::size_t i = 0; i < t.first.size(); ++i)
                if (t.first[i]) os << "*" << d.m_s[i] << "**" << t.first[i];
        }
        return os;
    }
    // sum_k d[k] * (x - x0)^k, d.size() == order+1
    gdual compose(const std::vector<Cf> &d) const
    {
        gdual nil(*this);
        nil.m_p.erase(key(m_s.size(), 0u));
        gdual r(d[0]);
        r.m_s = m_s;
        r.m_order = m_order;
        r.m_p.clear();
        r.m_p[key(m_s.size(), 0u)] = d[0];
        gdual pw(nil);
        for (unsigned k = 1u; k <= m_order; ++k) {
            gdual t(pw);
            for (auto &x : t.m_p) x.second *= d[k];
            r = add(r, t, false);
            if (k < m_order) pw = mul(pw, nil);
        }
        return r;
    }
    gdual inverse() const
    {
        const Cf c0 = constant_cf();
        std::vector<Cf> d;
        Cf cur = Cf(1.) / c0;
        for (unsigned k = 0u; k <= m_order; ++k) {
            d.push_back(cur);
            cur = -(cur / c0);
        }
        return compose(d);
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_order;
        ar &m_s;
        ar &m_p;
    }

private:
    static unsigned deg(const key &k)
    {
        unsigned d = 0u;
        for (auto e : k) d += e;
        return d;
    }
    Cf coeff(const key &k) const
    {
        auto it = m_p.find(k);
        return it == m_p.end() ? Cf(0.) : it->second;
    }
    void remap(const std::vector<std::string> &tgt)
    {
        if (tgt == m_s) return;
        std::vector<std::size_t> pos;
        for (const auto &s : m_s)
            pos.push_back(static_cast<std::size_t>(std::find(tgt.begin(), tgt.end(), s) - tgt.begin()));
        std::map<key, Cf> np;
        for (const auto &t : m_p) {
            key k(tgt.size(), 0u);
            for (std::size_t i = 0; i < pos.size(); ++i) k[pos[i]] = t.first[i];
            np.emplace(std::move(k), t.second);
        }
        m_p = std::move(np);
        m_s = tgt;
    }
    static void merge(gdual &a, gdual &b)
    {
        if (a.m_s == b.m_s) return;
        std::vector<std::string> u(a.m_s);
        u.insert(u.end(), b.m_s.begin(), b.m_s.end());
        std::sort(u.begin(), u.end());
        u.erase(std::unique(u.begin(), u.end()), u.end());
        a.remap(u);
        b.remap(u);
    }
    static gdual add(gdual a, gdual b, bool sub)
    {
        merge(a, b);
        a.m_order = std::max(a.m_order, b.m_order);
        for (const auto &t : b.m_p) {
            auto it = a.m_p.find(t.first);
            if (it == a.m_p.end())
                a.m_p.emplace(t.first, sub ? -t.second : t.second);
            else if (sub)
                it->second -= t.second;
            else
                it->second += t.second;
        }
        return a;
    }
    static gdual mul(gdual a, gdual b)
    {
        merge(a, b);
        gdual r;
        r.m_order = std::max(a.m_order, b.m_order);
        r.m_s = a.m_s;
        r.m_p.clear();
        for (const auto &x : a.m_p)
            for (const auto &y : b.m_p) {
                if (deg(x.first) + deg(y.first) > r.m_order) continue;
                key k(x.first);
                for (std::size_t i = 0; i < k.size(); ++i) k[i] += y.first[i];
                Cf v(x.second);
                v *= y.second;
                auto it = r.m_p.find(k);
                if (it == r.m_p.end())
                    r.m_p.emplace(std::move(k), std::move(v));
                else
                    it->second += v;
            }
        if (r.m_p.empty()) r.m_p[key(r.m_s.size(), 0u)] = Cf(0.);
        return r;
    }

    unsigned m_order;
    std::vector<std::string> m_s;
    std::map<key, Cf> m_p;
};

using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;

template <typename T>
struct is_gdual : std::false_type {
};
template <typename T>
struct is_gdual<gdual<T>> : std::true_type {
};
} // namespace audi
#endif
