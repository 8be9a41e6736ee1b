// Shared by the harnesses: generators, an independent reference model of a CGP, simulated storage.
#ifndef HARNESS_COMMON_HPP
#define HARNESS_COMMON_HPP
#include "../sim/dsim.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <exception>
#include <new>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <utility>
#include <vector>

namespace hc
{
using dsim::chance;
using dsim::pick;
using dsim::range;
using vd = std::vector<double>;
using vvd = std::vector<vd>;
using vu = std::vector<unsigned>;

inline bool same(double a, double b) // bitwise, any NaN equal to any NaN
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b;
}
inline bool same(const vd &a, const vd &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
inline bool same(const vvd &a, const vvd &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
inline bool close(double a, double b, double rel = 1e-9)
{
    if (same(a, b)) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return !std::isfinite(a) && !std::isfinite(b);
    return std::fabs(a - b) <= rel * std::max({1e-300, std::fabs(a), std::fabs(b)}) + 1e-12;
}
inline std::string str(double d)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", d);
    return b;
}
inline std::string str(const vd &v)
{
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + str(v[i]);
    return s + "]";
}
inline std::string str(const vu &v)
{
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + "]";
}
inline vd rnd_vd(std::size_t n, double lo, double hi)
{
    vd v(n);
    for (auto &x : v) x = dsim::real(lo, hi);
    return v;
}
// Distinguishable rows: shuffling, dropping or duplicating one changes the outcome.
inline vvd rnd_rows(std::size_t rows, std::size_t n, double lo, double hi)
{
    vvd v(rows);
    for (auto &r : v) r = rnd_vd(n, lo, hi);
    return v;
}

// ---- reference model of Cartesian Genetic Programming -------------------------------------------
struct Shape {
    unsigned n = 1, m = 1, r = 1, c = 1, l = 1; // n includes the ephemeral constants
    vu arity;
    unsigned nk = 1;

    unsigned cols_nodes() const { return r * c; }
    std::size_t size() const
    {
        std::size_t s = m;
        for (unsigned i = 0; i < c; ++i) s += std::size_t(r) * (1u + arity[i]);
        return s;
    }
    unsigned gene_of(unsigned node) const // first gene of a function node
    {
        unsigned k = 0, id = n;
        for (unsigned i = 0; i < c; ++i)
            for (unsigned j = 0; j < r; ++j, ++id) {
                if (id == node) return k;
                k += 1u + arity[i];
            }
        return ~0u;
    }
    unsigned arity_of(unsigned node) const { return arity[(node - n) / r]; }
    // weight index of the first incoming connection of a node
    unsigned weight_of(unsigned node) const { return gene_of(node) - (node - n); }
    void bounds(vu &lb, vu &ub) const
    {
        lb.clear();
        ub.clear();
        for (unsigned i = 0; i < c; ++i)
            for (unsigned j = 0; j < r; ++j) {
                lb.push_back(0);
                ub.push_back(nk - 1);
                for (unsigned a = 0; a < arity[i]; ++a) {
                    // connections: any input node or any node in the l columns before this one; when the
                    // levels-back exclude the first columns the inputs are excluded too
                    lb.push_back(i >= l ? n + r * (i - l) : 0u);
                    ub.push_back(n + r * i - 1u);
                }
            }
        for (unsigned o = 0; o < m; ++o) {
            lb.push_back(c >= l ? n + r * (c - l) : 0u);
            ub.push_back(n + r * c - 1u);
        }
    }
    // reachability from the outputs
    std::set<unsigned> active_nodes(const vu &x) const
    {
        std::set<unsigned> seen;
        std::vector<unsigned> todo(x.end() - m, x.end());
        while (!todo.empty()) {
            unsigned v = todo.back();
            todo.pop_back();
            if (!seen.insert(v).second || v < n) continue;
            const unsigned g = gene_of(v);
            for (unsigned a = 1; a <= arity_of(v); ++a) todo.push_back(x[g + a]);
        }
        return seen;
    }
    std::set<unsigned> active_genes(const vu &x) const
    {
        std::set<unsigned> g;
        for (unsigned v : active_nodes(x))
            if (v >= n)
                for (unsigned a = 0; a <= arity_of(v); ++a) g.insert(gene_of(v) + a);
        for (unsigned o = 0; o < m; ++o) g.insert(unsigned(x.size()) - m + o);
        return g;
    }
    enum Kind { F, C, O };
    Kind kind(unsigned gene) const
    {
        if (gene >= size() - m) return O;
        unsigned k = 0;
        for (unsigned i = 0; i < c; ++i)
            for (unsigned j = 0; j < r; ++j) {
                if (gene == k) return F;
                k += 1u + arity[i];
            }
        return C;
    }
    // recursive evaluation; apply(kernel, args, node) gives a node's value
    template <typename V, typename A>
    std::vector<V> eval(const vu &x, const std::vector<V> &in, A apply) const
    {
        std::vector<V> val(n + r * c);
        std::vector<char> have(n + r * c, 0);
        auto rec = [&](auto &&self, unsigned v) -> void {
            if (have[v]) return;
            have[v] = 1;
            if (v < n) {
                val[v] = in[v];
                return;
            }
            const unsigned g = gene_of(v);
            std::vector<V> args;
            for (unsigned a = 1; a <= arity_of(v); ++a) {
                self(self, x[g + a]);
                args.push_back(val[x[g + a]]);
            }
            val[v] = apply(x[g], args, v);
        };
        std::vector<V> out;
        for (unsigned o = 0; o < m; ++o) {
            const unsigned v = x[x.size() - m + o];
            rec(rec, v);
            out.push_back(val[v]);
        }
        return out;
    }
    std::string str() const
    {
        return "n=" + std::to_string(n) + " m=" + std::to_string(m) + " r=" + std::to_string(r) + " c=" + std::to_string(c)
               + " l=" + std::to_string(l) + " arity=" + hc::str(arity) + " kernels=" + std::to_string(nk);
    }
};

inline Shape rnd_shape(unsigned maxn, unsigned maxm, unsigned maxr, unsigned maxc, unsigned nk, bool uniform = false,
                       unsigned maxarity = 3)
{
    Shape s;
    s.n = range(1, maxn);
    s.m = range(1, maxm);
    s.r = range(1, maxr);
    s.c = range(1, maxc);
    s.l = range(1, s.c + 1);
    s.nk = nk;
    unsigned more = 0;
    if (chance(1, 6)) // now and then one dimension is larger
        switch (pick(6)) {
            case 0: s.n += range(1, 6); break;
            case 1: s.m += range(1, 6); break;
            case 2: s.r += range(1, 4); break;
            case 3: s.c += range(1, 6); break;
            case 4: s.l += range(1, 4); break;
            default: more = range(1, 3);
        }
    else if (maxc > 3 && dsim::rare(30)) { // and rarely much larger, beyond what any buffer or shortcut is made for
        switch (pick(4)) {
            case 0: s.n += range(8, 40); break;
            case 1: s.m += range(8, 40); break;
            case 2: s.r += range(6, 20); break;
            default:
                s.c += range(8, 24);
                s.l = s.c + 1; // the formulas of long chains would have exponential length
        }
    }
    const unsigned a = range(1, maxarity + more);
    for (unsigned i = 0; i < s.c; ++i) s.arity.push_back(uniform ? a : range(1, maxarity + more));
    return s;
}

// a chromosome respecting the bounds
inline vu rnd_chrom(const vu &lb, const vu &ub)
{
    vu x(lb.size());
    for (std::size_t i = 0; i < x.size(); ++i) x[i] = range(lb[i], ub[i]);
    return x;
}

// ---- simulated storage ---------------------------------------------------------------------------
// A stream buffer that accepts `limit` bytes and then fails (full disk / short write), or yields only
// the first `limit` bytes of its content (torn file / short read).
class FaultyBuf : public std::streambuf
{
public:
    std::string data;
    std::size_t limit = ~std::size_t(0);
    std::size_t rpos = 0;
    bool tripped = false;

protected:
    int_type overflow(int_type ch) override
    {
        if (data.size() >= limit) {
            tripped = true;
            return traits_type::eof();
        }
        data.push_back(char(ch));
        return ch;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        std::streamsize k = 0;
        for (; k < n; ++k) {
            if (data.size() >= limit) {
                tripped = true;
                break;
            }
            data.push_back(s[k]);
        }
        return k;
    }
    int_type underflow() override
    {
        if (rpos >= std::min(limit, data.size())) {
            tripped = true;
            return traits_type::eof();
        }
        return traits_type::to_int_type(data[rpos]);
    }
    int_type uflow() override
    {
        if (rpos >= std::min(limit, data.size())) {
            tripped = true;
            return traits_type::eof();
        }
        return traits_type::to_int_type(data[rpos++]);
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        std::streamsize k = 0;
        for (; k < n; ++k) {
            if (rpos >= std::min(limit, data.size())) {
                tripped = true;
                break;
            }
            s[k] = data[rpos++];
        }
        return k;
    }
    int sync() override { return data.size() > limit ? -1 : 0; }
};

// Runs f with the n-th allocation failing. Returns 0 when f completed, 1 when bad_alloc came out,
// 2 when another exception came out.
template <typename F>
int with_alloc_fault(std::uint64_t n, F &&f, bool *fired = nullptr)
{
    int ret = 0;
    dsim::arm_alloc_fault(n);
    try {
        f();
    } catch (const std::bad_alloc &) {
        ret = 1;
    } catch (...) {
        ret = 2;
    }
    const bool fi = dsim::disarm_alloc_fault();
    if (fired) *fired = fi;
    return ret;
}
} // namespace hc
#endif
