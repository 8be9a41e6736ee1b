// Shared by the expression harnesses: the reference model of an expression and random histories of operations.
#ifndef HARNESS_EXPR_HPP
#define HARNESS_EXPR_HPP
#include "io.hpp"
#include "formula.hpp"
#include "kernels.hpp"

#include <map>
#include <memory>
#include <numeric>

#include <dcgp/expression.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>

using hc::chance;
using hc::pick;
using hc::range;
using hc::Shape;
using hc::vd;
using hc::vu;
using hc::vvd;
using Ex = dcgp::expression<double>;
using Wx = dcgp::expression_weighted<double>;

namespace hx
{
struct bad_point { // what kernels throw need not be a standard exception
};
struct bad_point_std : std::runtime_error, bad_point {
    bad_point_std() : std::runtime_error("bad point") {}
};
[[noreturn]] inline void reject(double v)
{
    if (std::fmod(std::fabs(v), 2.) < 1.) throw bad_point();
    throw bad_point_std();
}
// a user kernel that rejects some inputs
struct Picky {
    double limit = 1e300;
    double operator()(const vd &v) const
    {
        if (v[0] > limit) reject(v[0]);
        return v[0] * 0.5 + 1.;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &limit;
    }
};
struct PickyS {
    std::string operator()(const std::vector<std::string> &v) const { return "picky(" + v[0] + ")"; }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
// a phenotype correction: shifts the argument and scales the result
struct Pc {
    double a = 1., b = 0.;
    vd operator()(const vd &p, std::function<vd(const vd &)> g) const
    {
        vd q(p);
        for (auto &x : q) x += b;
        vd y = g(q);
        for (auto &v : y) v = v * a + p[0];
        return y;
    }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &a &b;
    }
};

// ---- the reference model of an expression ----------------------------------------------------------
struct Ref {
    Shape s;
    std::vector<unsigned> ks; // index in kspecs(), or 1000 for Picky
    unsigned neph = 0;
    vu x, lb, ub;
    vd eph;
    std::vector<std::string> symb;
    bool has_pc = false;
    Pc pc;
    bool weighted = false;
    bool ann = false; // a network: weights and biases
    vd w, b;
    double limit = 1e300;
    std::shared_ptr<const Ref> inner; // a kernel that is itself an expression

    double apply(unsigned k, const vd &a) const
    {
        if (ks[k] == 1000u) {
            if (a[0] > limit) reject(a[0]);
            return a[0] * 0.5 + 1.;
        }
        if (ks[k] == 1001u) { // a user's kernel called "sum"
            if (std::fabs(a[0]) > limit) reject(a[0]);
            return hc::ksum(a);
        }
        if (ks[k] == 1002u) {
            vd p(inner->s.n);
            for (std::size_t i = 0; i < p.size(); ++i) p[i] = a[i % a.size()];
            double t = 0;
            for (double v : inner->eval(p)) t += v;
            return t + a[0];
        }
        return hc::kspecs()[ks[k]].f(a);
    }
    vd raw(const vd &p, double *mag = nullptr) const
    {
        vd in(p);
        in.insert(in.end(), eph.begin(), eph.end());
        return s.eval<double>(x, in, [&](unsigned k, vd args, unsigned node) {
            if (weighted)
                for (unsigned j = 0; j < args.size(); ++j) args[j] *= w[s.weight_of(node) + j];
            if (ann) args[0] += b[node - s.n];
            const double r = apply(k, args);
            if (mag) {
                for (double q : args) *mag = std::max(*mag, std::fabs(q));
                *mag = std::max(*mag, std::fabs(r));
            }
            return r;
        });
    }
    vd eval(const vd &p, double *mag = nullptr) const
    {
        if (!has_pc) return raw(p, mag);
        return pc(p, [&](const vd &q) { return raw(q, mag); });
    }
};
inline Ref make_ref(bool weighted, bool smooth, bool small = false)
{
    Ref r;
    r.weighted = weighted;
    const unsigned maxr = small ? 2 : 3, maxc = small ? 3 : 6;
    r.s = hc::rnd_shape(3, 3, maxr, maxc, 1, chance(1, 3), small ? 2 : 3);
    const unsigned amin = *std::min_element(r.s.arity.begin(), r.s.arity.end());
    r.ks = hc::pick_kernels(1, small ? 3 : 5, smooth, amin);
    if (!weighted) {
        r.neph = pick(3);
        r.s.n += r.neph;
    }
    r.s.nk = unsigned(r.ks.size());
    r.s.bounds(r.lb, r.ub);
    return r;
}
inline std::vector<dcgp::kernel<double>> kernels(const Ref &r)
{
    dcgp::kernel_set<double> set;
    for (auto k : r.ks) {
        if (k == 1000u) {
            Picky p;
            p.limit = r.limit;
            set.push_back(dcgp::kernel<double>(p, PickyS{}, "picky"));
        } else
            set.push_back(hc::kspecs()[k].name);
    }
    return set();
}
template <typename E>
void adopt(Ref &r, const E &e)
{
    r.x = e.get();
    r.eph = e.get_eph_val();
    r.symb = e.get_eph_symb();
}
inline Ex make_ex(Ref &r, unsigned seed)
{
    const bool uniform = std::all_of(r.s.arity.begin(), r.s.arity.end(), [&](unsigned a) { return a == r.s.arity[0]; });
    Ex e = uniform && chance(1, 2)
               ? Ex(r.s.n - r.neph, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity[0], kernels(r), r.neph, seed)
               : Ex(r.s.n - r.neph, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, kernels(r), r.neph, seed);
    adopt(r, e);
    DSIM_CHECK(r.eph.size() == r.neph, "wrong-constants", "number of ephemeral constants");
    for (double v : r.eph) DSIM_CHECK(v >= -10. && v <= 10., "wrong-constants", "initial constant out of [-10,10]");
    return e;
}
inline Wx make_wx(Ref &r, unsigned seed)
{
    const bool uniform = std::all_of(r.s.arity.begin(), r.s.arity.end(), [&](unsigned a) { return a == r.s.arity[0]; });
    Wx e = uniform && chance(1, 2) ? Wx(r.s.n, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity[0], kernels(r), seed)
                                   : Wx(r.s.n, r.s.m, r.s.r, r.s.c, r.s.l, r.s.arity, kernels(r), seed);
    adopt(r, e);
    r.w = e.get_weights();
    std::size_t nw = 0;
    for (auto a : r.s.arity) nw += std::size_t(a) * r.s.r;
    DSIM_CHECK(r.w == vd(nw, 1.), "wrong-weights", "initial weights are not all one");
    return e;
}
// the invariants: everything derived is a function of the chromosome
template <typename E>
void check_invariants(const E &e, const Ref &r, const std::string &ctx)
{
    const std::string w = ctx + " [" + r.s.str() + "]: ";
    DSIM_CHECK(e.get_n() == r.s.n && e.get_m() == r.s.m && e.get_r() == r.s.r && e.get_c() == r.s.c
                   && e.get_l() == r.s.l && e.get_arity() == r.s.arity && e.get_f().size() == r.s.nk,
               "wrong-dimensions", w + "the dimensions changed");
    DSIM_CHECK(e.get_lb() == r.lb && e.get_ub() == r.ub, "wrong-bounds",
               w + "lb=" + hc::str(e.get_lb()) + " ub=" + hc::str(e.get_ub()) + " expected lb=" + hc::str(r.lb)
                   + " ub=" + hc::str(r.ub));
    const vu &x = e.get();
    DSIM_CHECK(x.size() == r.lb.size(), "wrong-chromosome", w + "length");
    for (unsigned i = 0; i < x.size(); ++i)
        DSIM_CHECK(x[i] >= r.lb[i] && x[i] <= r.ub[i], "gene-out-of-bounds",
                   w + "gene " + std::to_string(i) + " is " + std::to_string(x[i]) + " in " + hc::str(x));
    DSIM_CHECK(x == r.x, "wrong-chromosome", w + "chromosome " + hc::str(x) + " expected " + hc::str(r.x));
    DSIM_CHECK(hc::same(e.get_eph_val(), r.eph) && e.get_eph_symb() == r.symb, "wrong-constants",
               w + "constants " + hc::str(e.get_eph_val()) + " expected " + hc::str(r.eph));
    const auto an = r.s.active_nodes(x);
    const auto ag = r.s.active_genes(x);
    DSIM_CHECK(e.get_active_nodes() == vu(an.begin(), an.end()), "wrong-active-nodes",
               w + "active nodes " + hc::str(e.get_active_nodes()) + " expected " + hc::str(vu(an.begin(), an.end()))
                   + " for " + hc::str(x));
    DSIM_CHECK(std::set<unsigned>(e.get_active_genes().begin(), e.get_active_genes().end()) == ag
                   && e.get_active_genes().size() == ag.size(),
               "wrong-active-genes",
               w + "active genes " + hc::str(e.get_active_genes()) + " expected " + hc::str(vu(ag.begin(), ag.end())));
    for (unsigned i = 0; i < r.s.n + r.s.r * r.s.c + 1u; ++i)
        DSIM_CHECK(e.is_active_node(i) == (an.count(i) > 0), "wrong-active-nodes", w + "is_active_node " + std::to_string(i));
    for (unsigned i = 0; i <= x.size(); ++i)
        DSIM_CHECK(e.is_active_gene(i) == (ag.count(i) > 0), "wrong-active-genes", w + "is_active_gene " + std::to_string(i));
    for (unsigned v = r.s.n; v < r.s.n + r.s.r * r.s.c; ++v)
        DSIM_CHECK(e.get_arity(v) == r.s.arity_of(v), "wrong-arity", w + "node " + std::to_string(v));
    for (unsigned v : {r.s.n - 1u, r.s.n + r.s.r * r.s.c}) {
        bool threw = false;
        try {
            e.get_arity(v);
        } catch (const std::invalid_argument &) {
            threw = true;
        }
        DSIM_CHECK(threw, "invalid-accepted", w + "the arity of " + std::to_string(v) + ", which is not a node");
    }
    for (unsigned v = 0; v < r.s.n + r.s.r * r.s.c; ++v)
        DSIM_CHECK(v < r.s.n || e.get_gene_idx()[v] == r.s.gene_of(v), "wrong-gene-index", w + "node " + std::to_string(v));
}
template <typename E>
void check_eval(const E &e, const Ref &r, const std::string &ctx)
{
    const vd p = hc::rnd_vd(r.s.n - r.neph, -2, 2);
    double mag = 0;
    const vd want = r.eval(p, &mag);
    const vd got = e(p);
    dsim::event("eval", got.empty() ? 0 : dsim::bits(got[0]));
    DSIM_CHECK(got.size() == r.s.m, "wrong-value", ctx + ": wrong number of outputs");
    if (mag > 1e8) return; // ill-conditioned
    for (unsigned i = 0; i < r.s.m; ++i)
        DSIM_CHECK(hc::close(got[i], want[i], 1e-9), "wrong-value",
                   ctx + ": f" + hc::str(p) + "[" + std::to_string(i) + "] = " + hc::str(got[i]) + " but decoding the "
                       + "chromosome gives " + hc::str(want[i]) + " [" + r.s.str() + " x=" + hc::str(r.x) + "]");
}
// how long the formulas are, about
inline double formula_size(const Ref &r)
{
    std::vector<double> sz(r.s.n + r.s.r * r.s.c, 1.);
    for (unsigned v = r.s.n; v < sz.size(); ++v) {
        for (unsigned a = 1; a <= r.s.arity_of(v); ++a) sz[v] += sz[r.x[r.s.gene_of(v) + a]];
        if (r.ks[r.x[r.s.gene_of(v)]] == 1002u) sz[v] *= 1. + formula_size(*r.inner);
    }
    double total = 0;
    for (unsigned o = 0; o < r.s.m; ++o) total += sz[r.x[r.x.size() - r.s.m + o]];
    return total;
}
// the printed formula computes what decoding the chromosome computes; print(names) gives the formulas
template <typename F>
void check_formulas(const Ref &r, const std::string &ctx, F &&print)
{
    if (formula_size(r) > 600) return;
    for (auto k : r.ks)
        if (k == 1001u) return; // prints what its user likes
    const vd p = hc::rnd_vd(r.s.n - r.neph, -2, 2);
    std::map<std::string, double> env;
    std::vector<std::string> names;
    for (unsigned i = 0; i < p.size(); ++i) {
        names.push_back("x" + std::to_string(i));
        env[names.back()] = p[i];
    }
    for (unsigned i = 0; i < r.neph; ++i)
        if (!env.emplace(r.symb[i], r.eph[i]).second) return; // ambiguous
    for (unsigned v = r.s.n; v < r.s.n + r.s.r * r.s.c; ++v) {
        if (r.weighted || r.ann)
            for (unsigned j = 0; j < r.s.arity_of(v); ++j)
                env["w" + std::to_string(v) + "_" + std::to_string(j)] = r.w[r.s.weight_of(v) + j];
        if (r.ann) env["b" + std::to_string(v)] = r.b[v - r.s.n];
    }
    std::vector<std::string> s;
    {
        dsim::Quiet quiet;
        s = print(names);
    }
    if (!s.empty() && s.back().find("...") != std::string::npos) s.pop_back(); // a long list, abbreviated
    else DSIM_CHECK(s.size() == r.s.m, "wrong-formula", ctx + ": wrong number of formulas");
    DSIM_CHECK(s.size() <= r.s.m, "wrong-formula", ctx + ": wrong number of formulas");
    double mag = 0;
    vd want;
    try {
        want = r.raw(p, &mag);
    } catch (const bad_point &) {
        return;
    }
    if (!(mag < 1e8)) return;
    for (unsigned i = 0; i < s.size(); ++i) {
        hc::Formula f(s[i], env);
        double v = 0;
        try {
            v = f.value();
        } catch (const hc::bad_formula &b) {
            DSIM_CHECK(false, "wrong-formula", ctx + ": " + b.what());
        }
        if (!f.finite || f.mag > 1e8) continue; // a protected operation
        DSIM_CHECK(hc::close(v, want[i], 1e-8), "wrong-formula",
                   ctx + ": the formula " + s[i].substr(0, 300) + " is " + hc::str(v) + " at " + hc::str(p) + " but decoding the "
                       + "chromosome gives " + hc::str(want[i]) + " [" + r.s.str() + " x=" + hc::str(r.x) + "]");
        dsim::probe("formula-compared");
    }
}
// the human readable description shows the state it describes
inline std::vector<std::string> described(const std::string &text, const std::string &label)
{
    std::vector<std::string> v;
    auto i = text.find("\t" + label + ":");
    if (i == std::string::npos) return {"missing"};
    i += label.size() + 2;
    const auto e = text.find('\n', i);
    std::string w;
    for (; i < (e == std::string::npos ? text.size() : e); ++i) {
        if (std::strchr(" \t[],", text[i])) {
            if (!w.empty()) v.push_back(w);
            w.clear();
        } else
            w += text[i];
    }
    if (!w.empty()) v.push_back(w);
    return v;
}
template <typename E>
void check_description(const E &e, const Ref &r, const std::string &ctx)
{
    std::ostringstream os;
    os << e;
    const std::string t = os.str();
    auto line = [&](const char *label, const vu &want) {
        std::vector<std::string> w;
        for (auto v : want) w.push_back(std::to_string(v));
        const auto got = described(t, label);
        DSIM_CHECK(got != std::vector<std::string>{"missing"}, "wrong-description", ctx + ": nothing on " + label + " in " + t);
        // long lists may be abbreviated
        bool ok = got == w;
        if (!ok && w.size() > 4) ok = std::equal(w.begin(), w.begin() + 4, got.begin(), got.begin() + long(std::min<std::size_t>(4, got.size())))
                                       && std::any_of(got.begin(), got.end(), [](const std::string &s) { return s.find("...") != std::string::npos; });
        std::string g;
        for (auto &s : got) g += s + " ";
        DSIM_CHECK(ok, "wrong-description", ctx + ": " + label + ": " + g + "expected " + hc::str(want));
    };
    line("Number of inputs", {r.s.n});
    line("Number of outputs", {r.s.m});
    line("Number of rows", {r.s.r});
    line("Number of columns", {r.s.c});
    line("Number of levels-back allowed", {r.s.l});
    line("Basis function arity", r.s.arity);
    line("Resulting lower bounds", r.lb);
    line("Resulting upper bounds", r.ub);
    line("Current expression (encoded)", r.x);
    line("Active nodes", e.get_active_nodes());
    line("Active genes", e.get_active_genes());
    auto words = [&](const char *label, const std::vector<std::string> &want, bool numbers) {
        const auto got = described(t, label);
        bool ok = got != std::vector<std::string>{"missing"} || want == got;
        const bool cut = std::any_of(got.begin(), got.end(), [](const std::string &s) { return s.find("...") != std::string::npos; });
        ok &= got.size() == want.size() || (cut && want.size() > 4);
        for (std::size_t i = 0; i < want.size() && i < got.size() && ok; ++i) {
            if (got[i].find("...") != std::string::npos) break;
            const double a = std::strtod(got[i].c_str(), nullptr), b = std::strtod(want[i].c_str(), nullptr);
            ok = numbers ? hc::same(a, b) || std::fabs(a - b) <= 1e-4 * std::fabs(b) : got[i] == want[i];
        }
        std::string g, h;
        for (auto &s : got) g += s + " ";
        for (auto &s : want) h += s + " ";
        DSIM_CHECK(ok, "wrong-description", ctx + ": " + label + ": " + g + "expected " + h);
    };
    auto numbers = [](const vd &v) {
        std::vector<std::string> w;
        for (double x : v) w.push_back(hc::str(x));
        return w;
    };
    std::vector<std::string> names;
    for (const auto &k : kernels(r)) names.push_back(k.get_name());
    words("Function set", names, false);
    if (r.weighted) words("Weights", numbers(r.w), true);
    if (r.ann) words("Biases", numbers(r.b), true);
    if (!r.weighted && !r.ann) {
        vu start(e.get_gene_idx());
        line("Start of the gene expressing the node", start);
        line("Number of ephemeral constants", {r.neph});
        words("Ephemeral constants names", r.symb, false);
        words("Ephemeral constants values", numbers(r.eph), true);
    }
    dsim::probe("description-compared");
}
template <typename E>
void check_formula(const E &e, const Ref &r, const std::string &ctx)
{
    check_formulas(r, ctx, [&](const std::vector<std::string> &names) { return e(names); });
}
template <typename E>
std::string state(const E &e)
{
    return hc::dump(e);
}

// Runs an operation that must be rejected and must leave no trace.
template <typename E, typename F>
void rejected(E &e, const char *name, F &&f)
{
    const std::string before = state(e);
    bool threw = false;
    try {
        f();
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    DSIM_CHECK(threw, "invalid-accepted", std::string(name) + ": an invalid argument was accepted");
    DSIM_CHECK(state(e) == before, "rejected-operation-had-effect",
               std::string(name) + ": a rejected operation changed the object");
    dsim::probe("rejected-operations");
}

template <typename E, typename = void>
struct has_bias : std::false_type {
};
template <typename E>
struct has_bias<E, std::void_t<decltype(std::declval<const E &>().get_biases())>> : std::true_type {
};
template <typename E>
void change_weights(E &e, Ref &r, bool valid_only)
{
    const unsigned node = range(r.s.n, r.s.n + r.s.r * r.s.c - 1), j = pick(r.s.arity_of(node));
    const double v = dsim::real(-2, 2);
    const unsigned idx = r.s.weight_of(node) + j;
    switch (pick(valid_only ? 4 : 5)) {
        case 0:
            e.set_weight(node, j, v);
            r.w[idx] = v;
            break;
        case 1:
            if constexpr (has_bias<E>::value) {
                if (chance(1, 2)) {
                    e.set_weight(std::size_t(idx), v);
                    r.w[idx] = v;
                } else if (chance(1, 2)) {
                    e.set_bias(std::size_t(node - r.s.n), v);
                    r.b[node - r.s.n] = v;
                } else {
                    r.b = hc::rnd_vd(r.b.size(), -2, 2);
                    e.set_biases(r.b);
                }
            }
            break;
        case 2:
            r.w = hc::rnd_vd(r.w.size(), -2, 2);
            e.set_weights(r.w);
            break;
        case 3:
            DSIM_CHECK(hc::same(e.get_weight(node, j), r.w[idx]), "wrong-weights",
                       "get_weight of node " + std::to_string(node));
            if constexpr (has_bias<E>::value)
                DSIM_CHECK(hc::same(e.get_weight(std::size_t(idx)), r.w[idx])
                               && hc::same(e.get_bias(node - r.s.n), r.b[node - r.s.n]),
                           "wrong-weights", "get_weight/get_bias " + std::to_string(idx));
            break;
        default:
            rejected(e, "set_weight", [&] { e.set_weight(pick(r.s.n), 0u, v); });
            rejected(e, "set_weight", [&] { e.set_weight(r.s.n + r.s.r * r.s.c + pick(3), 0u, v); });
            rejected(e, "set_weight", [&] { e.set_weight(node, r.s.arity_of(node) + pick(3), v); });
            rejected(e, "get_weight", [&] { e.get_weight(node, r.s.arity_of(node) + pick(3)); });
            rejected(e, "get_weight", [&] { e.get_weight(pick(r.s.n), 0u); });
            rejected(e, "get_weight", [&] { e.get_weight(r.s.n + r.s.r * r.s.c + pick(3), 0u); });
            rejected(e, "set_weights", [&] { e.set_weights(vd(r.w.size() + 1, v)); });
            rejected(e, "set_weights", [&] { e.set_weights(vd(r.w.size() - 1, v)); });
            if constexpr (has_bias<E>::value) {
                rejected(e, "set_biases", [&] { e.set_biases(vd(r.b.size() + 1, v)); });
                rejected(e, "set_biases", [&] { e.set_biases(vd(r.b.size() - 1, v)); });
                const std::size_t past = chance(1, 2) ? pick(3) : std::size_t(-1) - r.w.size() - pick(3);
                rejected(e, "set_weight", [&] { e.set_weight(r.w.size() + past, v); });
                rejected(e, "get_weight", [&] { e.get_weight(r.w.size() + past); });
                rejected(e, "set_bias", [&] { e.set_bias(r.b.size() + past, v); });
                rejected(e, "get_bias", [&] { e.get_bias(r.b.size() + past); });
            }
    }
    if constexpr (has_bias<E>::value)
        DSIM_CHECK(hc::same(e.get_biases(), r.b), "wrong-weights",
                   "biases " + hc::str(e.get_biases()) + " expected " + hc::str(r.b));
    DSIM_CHECK(hc::same(e.get_weights(), r.w), "wrong-weights", "weights " + hc::str(e.get_weights()) + " expected " + hc::str(r.w));
}
// one random operation; keeps the model in step. The mutations are checked for their contract in E02; here their
// result is adopted after checking it is legal.
template <typename E>
const char *step(E &e, Ref &r, bool valid_only = false)
{
    unsigned op = pick(20);
    if (valid_only && (op == 1 || op == 3 || op == 5 || op == 7 || op == 9 || op == 19)) op = 10;
    const unsigned size = unsigned(r.x.size());
    switch (op) {
        case 0: {
            vu x = hc::rnd_chrom(r.lb, r.ub);
            e.set(x);
            r.x = x;
            return "set";
        }
        case 1: {
            vu x = hc::rnd_chrom(r.lb, r.ub);
            const unsigned i = pick(size);
            const unsigned how = pick(4);
            if (how == 0) x.pop_back();
            else if (how == 1) x.push_back(0);
            else if (how == 2 || r.lb[i] == 0) x[i] = r.ub[i] + 1u + pick(3);
            else x[i] = r.lb[i] - 1u;
            rejected(e, "set", [&] { e.set(x); });
            return "set-invalid";
        }
        case 2: {
            vu x = hc::rnd_chrom(r.lb, r.ub);
            if (chance(1, 2)) {
                vd y(x.begin(), x.end());
                e.set_from_range(y.begin(), y.end());
            } else
                e.set_from_range(x.begin(), x.end());
            r.x = x;
            return "set-from-range";
        }
        case 3: {
            vu x = hc::rnd_chrom(r.lb, r.ub);
            vd y(x.begin(), x.end());
            const unsigned i = pick(size);
            switch (pick(6)) {
                case 0: y[i] = std::nan(""); break;
                case 1: y[i] = double(r.ub[i]) + 1.; break;
                case 2: y[i] = double(r.lb[i]) - 1.; break;
                case 3: y[i] = INFINITY; break;
                case 4: y.push_back(0.); break;
                default: y.erase(y.begin() + i);
            }
            rejected(e, "set_from_range", [&] { e.set_from_range(y.begin(), y.end()); });
            return "set-from-range-invalid";
        }
        case 4: {
            const unsigned node = range(r.s.n, r.s.n + r.s.r * r.s.c - 1), f = pick(r.s.nk);
            e.set_f_gene(node, f);
            r.x[r.s.gene_of(node)] = f;
            return "set-f-gene";
        }
        case 5: {
            const unsigned node = range(r.s.n, r.s.n + r.s.r * r.s.c - 1);
            switch (pick(3)) {
                case 0: rejected(e, "set_f_gene", [&] { e.set_f_gene(node, r.s.nk + pick(2)); }); break;
                case 1: rejected(e, "set_f_gene", [&] { e.set_f_gene(pick(r.s.n), 0); }); break;
                default: rejected(e, "set_f_gene", [&] { e.set_f_gene(r.s.n + r.s.r * r.s.c + pick(3), 0); });
            }
            return "set-f-gene-invalid";
        }
        case 6: e.mutate(pick(size)); break;
        case 7: {
            rejected(e, "mutate", [&] { e.mutate(size + pick(3)); });
            return "mutate-invalid";
        }
        case 8: {
            vu ids;
            for (unsigned i = 0, n = pick(5); i < n; ++i) ids.push_back(pick(size));
            e.mutate(ids);
            break;
        }
        case 9: {
            vu ids;
            for (unsigned i = 0, n = range(1, 5); i < n; ++i) ids.push_back(pick(size));
            ids[pick(unsigned(ids.size()))] = size + pick(3);
            rejected(e, "mutate(list)", [&] { e.mutate(ids); });
            return "mutate-list-invalid";
        }
        case 10: e.mutate_random(pick(6)); break;
        case 11: e.mutate_inactive(pick(6)); break;
        case 12: e.mutate_active(pick(6)); break;
        case 13:
            if (chance(1, 2)) e.mutate_active_fgene(range(1, 4));
            else e.mutate_active_cgene(range(1, 4));
            break;
        case 14: e.mutate_ogene(range(1, 4)); break;
        case 15: e.seed(long(pick(100))); return "seed";
        case 16: { // through copies, moves and self assignment
            switch (pick(4)) {
                case 0: {
                    E c(e);
                    E d(std::move(c));
                    e = d;
                    break;
                }
                case 1: {
                    E c(e);
                    e = std::move(c);
                    break;
                }
                case 2: {
                    E &a = e;
                    e = a;
                    break;
                }
                default: { // mutating a copy does not touch the original
                    E c(e);
                    const std::string before = state(e);
                    c.mutate_random(10);
                    if (c.get_eph_val().size()) c.Ex::set_eph_val(vd(c.get_eph_val().size(), 9.));
                    DSIM_CHECK(state(e) == before, "copies-share-state", "mutating a copy changed the original");
                }
            }
            return "copy";
        }
        case 17: {
            if (r.weighted) return "skip";
            if (r.neph && chance(3, 4)) {
                const vd v = hc::rnd_vd(r.neph, -3, 3);
                e.Ex::set_eph_val(v);
                r.eph = v;
                std::vector<std::string> s;
                for (unsigned i = 0; i < r.neph; ++i) s.push_back("k" + std::to_string(pick(9)));
                e.Ex::set_eph_symb(s);
                r.symb = s;
                return "set-constants";
            }
            if (valid_only) return "skip";
            rejected(e, "set_eph_val", [&] { e.Ex::set_eph_val(vd(r.neph + 1, 0.)); });
            rejected(e, "set_eph_symb", [&] { e.Ex::set_eph_symb(std::vector<std::string>(r.neph + 1, "z")); });
            return "set-constants-invalid";
        }
        case 18: {
            if constexpr (!std::is_same_v<E, Ex>) {
                change_weights(e, r, valid_only);
                return "set-weights";
            }
            if (r.has_pc && chance(1, 2)) {
                e.unset_phenotype_correction();
                r.has_pc = false;
            } else {
                r.pc.a = double(range(1, 4));
                r.pc.b = double(pick(3));
                e.set_phenotype_correction(r.pc);
                r.has_pc = true;
            }
            return "phenotype-correction";
        }
        default: { // calls that only read
            const std::string before = state(e);
            const unsigned np = r.s.n - r.neph;
            bool threw = false;
            try {
                e(vd(np + 1, 0.5));
            } catch (const std::invalid_argument &) {
                threw = true;
            } catch (const std::out_of_range &) {
                threw = true;
            }
            DSIM_CHECK(threw, "invalid-accepted", "a point of the wrong size was accepted");
            for (unsigned wrong : {np + 1u, np - 1u}) {
                threw = false;
                try {
                    e(std::vector<std::string>(wrong, "x"));
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                DSIM_CHECK(threw, "invalid-accepted", "a wrong number of names was accepted");
            }
            if (np > 1 || !r.has_pc) {
                threw = false;
                try {
                    e(vd(np - 1, 0.5));
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                DSIM_CHECK(threw, "invalid-accepted", "a short point was accepted");
            }
            threw = false;
            try {
                e.loss(vvd{}, vvd{}, "MSE", pick(3));
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            DSIM_CHECK(threw, "invalid-accepted", "a loss without data was computed");
            threw = false;
            try {
                e.loss(vvd(2, vd(np, 0.)), vvd(3, vd(r.s.m, 0.)), "MSE");
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            DSIM_CHECK(threw, "invalid-accepted", "data and labels of different lengths were accepted");
            threw = false;
            try {
                e.loss(vvd(2, vd(np, 0.)), vvd(2, vd(r.s.m, 0.)), "XYZ");
            } catch (const std::invalid_argument &) {
                threw = true;
            }
            DSIM_CHECK(threw, "invalid-accepted", "an unknown loss was accepted");
            e(std::vector<std::string>(np, "x"));
            std::ostringstream os;
            os << e;
            DSIM_CHECK(state(e) == before, "read-had-effect", "a const call changed the object");
            return "read";
        }
    }
    // a mutation: adopt
    DSIM_CHECK(e.get().size() == size, "wrong-chromosome", "a mutation changed the chromosome length");
    r.x = e.get();
    return "mutation";
}
} // namespace hx

DCGP_S11N_FUNCTION_EXPORT_KEY(hx_picky, hx::Picky, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(hx_pickys, hx::PickyS, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_EXPORT_KEY(hx_pc, hx::Pc, std::vector<double>, const std::vector<double> &,
                          std::function<std::vector<double>(const std::vector<double> &)>)


using namespace hx;
#endif
