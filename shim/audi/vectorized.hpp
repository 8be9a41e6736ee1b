// Stand-in for audi::vectorized<double> (AuDi is not installed in this sandbox).
// Same observable semantics for what dcgp uses: coefficient-wise arithmetic with
// size-1 broadcasting, comparison by the first coefficient only where dcgp needs it.
#ifndef VSHIM_AUDI_VECTORIZED_HPP
#define VSHIM_AUDI_VECTORIZED_HPP
#include <boost/serialization/vector.hpp>
#include <cmath>
#include <cstddef>
#include <initializer_list>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <vector>

namespace audi
{
template <typename T>
struct vectorized {
    vectorized() : m_c(1, T(0)) {}
    template <typename U, std::enable_if_t<std::is_arithmetic<U>::value, int> = 0>
    vectorized(U v) : m_c(1, static_cast<T>(v))
    {
    }
    vectorized(const std::vector<T> &c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (vectorized)");
    }
    vectorized(std::vector<T> &&c) : m_c(std::move(c))
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (vectorized)");
    }
    vectorized(std::initializer_list<T> c) : m_c(c)
    {
        if (m_c.empty()) throw std::invalid_argument("Cannot build an empty coefficient_v (vectorized)");
    }

    std::size_t size() const { return m_c.size(); }
    void resize(std::size_t n) { m_c.resize(n, m_c[0]); }
    typename std::vector<T>::const_iterator begin() const { return m_c.begin(); }
    typename std::vector<T>::const_iterator end() const { return m_c.end(); }
    typename std::vector<T>::iterator begin() { return m_c.begin(); }
    typename std::vector<T>::iterator end() { return m_c.end(); }
    T operator[](std::size_t i) const { return m_c.size() == 1 ? m_c[0] : m_c[i]; }
    const std::vector<T> &get_v() const { return m_c; }

    template <typename Op>
    vectorized &apply(const vectorized &o, Op op)
    {
        if (o.m_c.size() == m_c.size()) {
            for (std::size_t i = 0; i < m_c.size(); ++i) op(m_c[i], o.m_c[i]);
        } else if (o.m_c.size() == 1) {
            const T v = o.m_c[0];
            for (auto &x : m_c) op(x, v);
        } else if (m_c.size() == 1) {
            const T v = m_c[0];
            m_c.assign(o.m_c.size(), v);
            for (std::size_t i = 0; i < m_c.size(); ++i) op(m_c[i], o.m_c[i]);
        } else {
            throw std::invalid_argument("Coefficients of different sizes in vectorized arithmetic");
        }
        return *this;
    }
    vectorized &operator+=(const vectorized &o) { return apply(o, [](T &a, const T &b) { a += b; }); }
    vectorized &operator-=(const vectorized &o) { return apply(o, [](T &a, const T &b) { a -= b; }); }
    vectorized &operator*=(const vectorized &o) { return apply(o, [](T &a, const T &b) { a *= b; }); }
    vectorized &operator/=(const vectorized &o) { return apply(o, [](T &a, const T &b) { a /= b; }); }
    vectorized operator-() const
    {
        vectorized r(*this);
        for (auto &x : r.m_c) x = -x;
        return r;
    }
    friend vectorized operator+(vectorized a, const vectorized &b) { return a += b; }
    friend vectorized operator-(vectorized a, const vectorized &b) { return a -= b; }
    friend vectorized operator*(vectorized a, const vectorized &b) { return a *= b; }
    friend vectorized operator/(vectorized a, const vectorized &b) { return a /= b; }
    template <typename Cmp>
    static bool all(const vectorized &a, const vectorized &b, Cmp c)
    {
        const std::size_t n = a.size() > b.size() ? a.size() : b.size();
        for (std::size_t i = 0; i < n; ++i)
            if (!c(a[i], b[i])) return false;
        return true;
    }
    friend bool operator==(const vectorized &a, const vectorized &b)
    {
        return all(a, b, [](T x, T y) { return x == y; });
    }
    friend bool operator!=(const vectorized &a, const vectorized &b) { return !(a == b); }
    friend bool operator<(const vectorized &a, const vectorized &b)
    {
        return all(a, b, [](T x, T y) { return x < y; });
    }
    friend bool operator>(const vectorized &a, const vectorized &b)
    {
        return all(a, b, [](T x, T y) { return x > y; });
    }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &d)
    {
        os << "[";
        for (std::size_t i = 0; i < d.m_c.size(); ++i) os << (i ? ", " : "") << d.m_c[i];
        return os << "]";
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
    }

private:
    std::vector<T> m_c;
};
} // namespace audi
#endif
