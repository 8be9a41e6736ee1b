// Shared by the problem and evolution harnesses: random symbolic regression problems and their reference.
#ifndef HARNESS_PROB_HPP
#define HARNESS_PROB_HPP
#include "expr.hpp"
#include <atomic>
#include <dcgp/problems/symbolic_regression.hpp>
namespace hx
{
using Sr = dcgp::symbolic_regression;
using gv = audi::gdual_v;

// A user's kernel that adds its inputs under the name of the library's one (its derivative version exists), rejects
// some inputs and declares a thread safety level.
struct PickySum {
    double limit = 1e300;
    int level = 1;
    double operator()(const vd &v) const
    {
        if (std::fabs(v[0]) > limit) reject(v[0]);
        return hc::ksum(v);
    }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(level); }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &limit &level;
    }
};
// points evaluated through the correction on doubles
inline std::atomic<std::uint64_t> &pc_calls()
{
    static std::atomic<std::uint64_t> n{0};
    return n;
}
// what the correction saw, while somebody listens (sequential evaluations only)
struct PcTape {
    bool on = false;
    std::vector<std::pair<vd, vd>> points; // point, outputs
};
inline PcTape &pc_tape()
{
    static PcTape t;
    return t;
}
// a phenotype correction for doubles and for gduals
template <typename T>
struct Pct {
    double a = 1., b = 0.;
    int level = 1;
    std::vector<T> operator()(const std::vector<T> &p, std::function<std::vector<T>(const std::vector<T> &)> g) const
    {
        if constexpr (std::is_same_v<T, double>) pc_calls().fetch_add(1, std::memory_order_relaxed);
        std::vector<T> q(p);
        for (auto &x : q) x += b;
        std::vector<T> y = g(q);
        for (auto &v : y) {
            v *= a;
            v += p[0];
        }
        if constexpr (std::is_same_v<T, double>)
            if (pc_tape().on) pc_tape().points.emplace_back(p, y);
        return y;
    }
    pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(level); }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &a &b &level;
    }
};

struct PRef {
    Ref r;
    vvd X, Y;
    bool multi = false, ce = false;
    unsigned par = 0, seed = 0;
    int klevel = 1; // level of the user's kernel
    int pclevel = 1;
    int dpclevel = 2; // of the correction of the derivatives, when it declares less
    bool all_constant = false; // every kernel is the user's

    unsigned np() const { return r.s.n - r.neph; }
    std::vector<dcgp::kernel<double>> make_kernels() const
    {
        dcgp::kernel_set<double> set;
        for (auto k : r.ks) {
            if (k == 1001u) {
                PickySum p;
                p.limit = r.limit;
                p.level = klevel;
                Prt s;
                s.level = klevel;
                set.push_back(dcgp::kernel<double>(p, s, "sum"));
            } else
                set.push_back(hc::kspecs()[k].name);
        }
        return set();
    }
    struct Prt {
        int level = 1;
        std::string operator()(const std::vector<std::string> &v) const { return "S(" + v[0] + ")"; }
        pagmo::thread_safety get_thread_safety() const { return static_cast<pagmo::thread_safety>(level); }
        template <typename Ar>
        void serialize(Ar &ar, unsigned)
        {
            ar &level;
        }
    };
    Sr build() const
    {
        Sr p(X, Y, r.s.r, r.s.c, r.s.l, r.s.arity[0], make_kernels(), r.neph, multi, par, ce ? "CE" : "MSE", seed);
        if (r.has_pc) correct(p);
        return p;
    }
    void correct(Sr &p) const
    {
        Pct<double> a;
        Pct<gv> b;
        a.a = b.a = r.pc.a;
        a.b = b.b = r.pc.b;
        a.level = pclevel;
        b.level = dpclevel;
        p.set_phenotype_correction(a, b);
    }
    // the level a problem may report
    int level() const
    {
        int l = 1;
        for (auto k : r.ks) l = std::min(l, k == 1001u ? klevel : 1);
        if (r.has_pc) l = std::min(l, std::min(pclevel, dpclevel));
        return l;
    }
    vd cand() const
    {
        vd x = hc::rnd_vd(r.neph, -3, 3);
        const vu c = hc::rnd_chrom(r.lb, r.ub);
        x.insert(x.end(), c.begin(), c.end());
        return x;
    }
    Ref at(const vd &x) const
    {
        Ref q = r;
        q.eph.assign(x.begin(), x.begin() + r.neph);
        q.x.clear();
        for (std::size_t i = r.neph; i < x.size(); ++i) q.x.push_back(unsigned(x[i]));
        return q;
    }
    double point_loss(const vd &o, const vd &y) const
    {
        double L = 0;
        if (!ce) {
            for (std::size_t j = 0; j < o.size(); ++j) L += (o[j] - y[j]) * (o[j] - y[j]);
            return L / double(o.size());
        }
        double mx = -INFINITY, cs = 0;
        for (double v : o) mx = std::max(mx, v);
        for (double v : o) cs += std::exp(v - mx);
        for (std::size_t j = 0; j < o.size(); ++j) L -= std::log(std::exp(o[j] - mx) / cs) * y[j];
        return L;
    }
    double loss(const vd &x, double *mag) const
    {
        const Ref q = at(x);
        double L = 0;
        for (std::size_t i = 0; i < X.size(); ++i) L += point_loss(q.eval(X[i], mag), Y[i]);
        return L / double(X.size());
    }
    // the losses of the evaluations on a tape
    vd losses(const PcTape &t) const
    {
        vd r;
        const std::size_t D = X.size();
        for (std::size_t k = 0; k + D <= t.points.size(); k += D) {
            std::vector<char> used(D, 0);
            double L = 0;
            for (std::size_t a = 0; a < D; ++a)
                for (std::size_t i = 0; i < D; ++i)
                    if (!used[i] && X[i] == t.points[k + a].first) {
                        used[i] = 1;
                        L += point_loss(t.points[k + a].second, Y[i]);
                        break;
                    }
            r.push_back(std::count(used.begin(), used.end(), 1) == long(D) ? L / double(D) : NAN);
        }
        return r;
    }
    vd fitness(const vd &x, double *mag) const
    {
        vd f{loss(x, mag)};
        if (multi) {
            const Ref q = at(x);
            f.push_back(double(q.s.active_genes(q.x).size()));
        }
        return f;
    }
    std::string str() const
    {
        return r.s.str() + " neph=" + std::to_string(r.neph) + " ks=" + hc::str(r.ks) + " points="
               + std::to_string(X.size()) + " par=" + std::to_string(par) + (multi ? " multi" : "") + (ce ? " CE" : "")
               + (r.has_pc ? " pc" : "");
    }
};
// kind: 0 any kernels, 1 smooth ones, 2 with the picky kernel
inline PRef make_pref(int kind, bool small = false)
{
    PRef p;
    Ref &r = p.r;
    r.s = hc::rnd_shape(2, 2, 2, small ? 3 : 5, 1, true, 3);
    for (auto &a : r.s.arity) a = std::max(2u, a);
    r.neph = pick(small ? 3 : 4);
    r.s.n += r.neph;
    static const unsigned sm[] = {0, 1, 2, 5, 6, 9, 10, 11, 14, 17, 18, 19, 20};
    for (unsigned i = 0, n = range(1, small ? 3 : 5); i < n; ++i)
        r.ks.push_back(kind == 1 ? sm[pick(13)] : pick(unsigned(hc::kspecs().size())));
    if (kind == 2) {
        r.ks[pick(unsigned(r.ks.size()))] = 1001u;
        r.limit = double(range(1, 8));
        p.klevel = int(pick(3)); // none, basic, constant
    }
    r.s.nk = unsigned(r.ks.size());
    r.s.bounds(r.lb, r.ub);
    static const unsigned sizes[] = {1, 2, 3, 4, 6, 8, 12, 20};
    const unsigned D = !small && dsim::rare(40) ? range(60, 300) : sizes[pick(chance(1, 6) ? 8 : 6)];
    p.X = hc::rnd_rows(D, r.s.n - r.neph, -2, 2);
    p.ce = r.s.m > 1 && chance(1, 4);
    p.Y = hc::rnd_rows(D, r.s.m, p.ce ? 0 : -2, 2);
    p.multi = chance(1, 3);
    if (chance(1, 2)) {
        std::vector<unsigned> div;
        for (unsigned d = 1; d <= D; ++d)
            if (D % d == 0) div.push_back(d);
        p.par = div[pick(unsigned(div.size()))];
    }
    p.seed = pick(1000);
    return p;
}
} // namespace hx
DCGP_S11N_FUNCTION_EXPORT_KEY(hx_pickysum, hx::PickySum, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(hx_prt, hx::PRef::Prt, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(hx_pcd, hx::Pct<double>, std::vector<double>, const std::vector<double> &,
                              std::function<std::vector<double>(const std::vector<double> &)>)
DCGP_S11N_FUNCTION_EXPORT_KEY(hx_pcv, hx::Pct<audi::gdual_v>, std::vector<audi::gdual_v>,
                              const std::vector<audi::gdual_v> &,
                              std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v> &)>)
#endif
