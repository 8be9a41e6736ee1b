// G01: the benchmark generators are pure: the same published dataset from every thread, under every schedule, for any
// previous content of the output arguments, after failed calls, and whatever the program's random state is.
#include "common.hpp"

#include <cstdlib>

#include <dcgp/gym.hpp>
#include <dcgp/rng.hpp>

using hc::vd;
using hc::vvd;

namespace
{
using Gen = void (*)(vvd &, vvd &);
using F = double (*)(const vd &);
const double PI = std::acos(-1.0), E = std::exp(1.0);

// ---- the formulas, written from the cited papers ----------------------------------------------------
double r_koza(const vd &x) { return x[0] * x[0] * x[0] * x[0] * x[0] - 2. * x[0] * x[0] * x[0] + x[0]; }
double r_p1(const vd &x) { return x[0] * (std::pow(x[0], 4) - PI * x[0] * x[0] + 1.); }
double r_p2(const vd &x) { return x[0] * x[0] * x[0] * (x[0] * x[0] - PI) + 2. * PI / x[0]; }
double r_p3(const vd &x) { return x[0] * x[0] * x[0] * (E * x[0] * x[0] + 1.) / (x[0] + 1.); }
double r_p4(const vd &x) { return std::sin(PI * x[0]) + 1. / x[0]; }
double r_p5(const vd &x) { return x[0] * (E * std::pow(x[0], 4) - PI * x[0] * x[0] + 1.); }
double r_p6(const vd &x) { return (E * x[0] * x[0] - 1.) / (PI * (x[0] + 2.)); }
double r_p7(const vd &x) { return std::cos(PI * x[0]) + std::sin(E * x[0]); }
double sq(double a) { return a * a; }
double r_kot(const vd &x) { return std::exp(-sq(x[0] - 1.)) / (1.2 + sq(x[1] - 2.5)); }
double r_sal(const vd &x)
{
    const double c = std::cos(x[0]), s = std::sin(x[0]);
    return std::pow(x[0], 3) * std::exp(-x[0]) * c * s * (c * s * s - 1.);
}
double r_sal2(const vd &x) { return r_sal(x) * (x[1] - 5.); }
double r_uball(const vd &x)
{
    double p = 1.;
    for (double v : x) p *= sq(v - 3.);
    return 10. / (5. + p);
}
double r_rat3(const vd &x) { return 30. * (x[0] - 1.) * (x[2] - 1.) / (sq(x[1]) * (x[0] - 10.)); }
double r_sc(const vd &x) { return 6. * std::cos(x[0] * std::sin(x[1])); }
double r_rip(const vd &x) { return (x[0] - 3.) * (x[1] - 3.) + 2. * std::sin((x[0] - 4.) * (x[1] - 4.)); }
double r_rat2(const vd &x)
{
    return (std::pow(x[0] - 3., 4) + std::pow(x[1] - 3., 3) - x[1] + 3.) / (std::pow(x[1] - 2., 4) + 10.);
}

struct Spec {
    const char *name;
    Gen gen;
    F f;
    unsigned n;           // points
    int kind;             // 0 grid, 1 random, 2 table
    std::vector<std::pair<double, double>> box;
    double rss;           // table: certified residual sum of squares of the NIST fit, relative tolerance below
    double sx, sy;        // table: weighted sums
};
double nist(int id, double x)
{
    using std::exp;
    using std::pow;
    switch (id) {
        case 0: return exp(-1.9027818370E-01 * x) / (6.1314004477E-03 + 1.0530908399E-02 * x);
        case 1: return exp(-1.6657666537E-01 * x) / (5.1653291286E-03 + 1.2150007096E-02 * x);
        case 2: return 7.6886226176E-01 * pow(x, 3.8604055871E+00);
        case 3:
            return 9.8778210871E+01 * exp(-1.0497276517E-02 * x)
                   + 1.0048990633E+02 * exp(-sq(x - 6.7481111276E+01) / sq(2.3129773360E+01))
                   + 7.1994503004E+01 * exp(-sq(x - 1.7899805021E+02) / sq(1.8389389025E+01));
        case 4:
            return (1.6745063063E+00 - 1.3927397867E-01 * x + 2.5961181191E-03 * x * x)
                   / (1. - 1.7241811870E-03 * x + 2.1664802578E-05 * x * x);
        case 5:
            return 9.6251029939E-02 * exp(-1.0057332849E+00 * x) + 8.6424689056E-01 * exp(-3.0078283915E+00 * x)
                   + 1.5529016879E+00 * exp(-5.0028798100E+00 * x);
        case 6: return 3.3799746163E+02 * (1. - pow(1. + 3.9039091287E-04 * x / 2., -2));
        default: return 0.;
    }
}
namespace g = dcgp::gym;
const std::vector<Spec> &specs()
{
    static const std::vector<Spec> s = {
        {"koza_quintic", g::generate_koza_quintic, r_koza, 10, 0, {{-3, 3}}, 0, 0, 0},
        {"P1", g::generate_P1, r_p1, 10, 0, {{1, 3}}, 0, 0, 0},
        {"P2", g::generate_P2, r_p2, 10, 0, {{0.1, 5}}, 0, 0, 0},
        {"P3", g::generate_P3, r_p3, 10, 0, {{-0.9, 1}}, 0, 0, 0},
        {"P4", g::generate_P4, r_p4, 10, 0, {{-1, 1}}, 0, 0, 0},
        {"P5", g::generate_P5, r_p5, 10, 0, {{1, 3}}, 0, 0, 0},
        {"P6", g::generate_P6, r_p6, 10, 0, {{-2.1, 1}}, 0, 0, 0},
        {"P7", g::generate_P7, r_p7, 10, 0, {{-1, 1}}, 0, 0, 0},
        {"salutowicz", g::generate_salutowicz, r_sal, 100, 0, {{0.05, 10}}, 0, 0, 0},
        {"kotanchek", g::generate_kotanchek, r_kot, 100, 1, {{0.3, 4}, {0.3, 4}}, 0, 0, 0},
        {"salutowicz2d", g::generate_salutowicz2d, r_sal2, 601, 1, {{0.05, 10}, {0.05, 10}}, 0, 0, 0},
        {"uball5d", g::generate_uball5d, r_uball, 1024, 1,
         {{0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}, {0.05, 6.05}}, 0, 0, 0},
        {"ratpol3d", g::generate_ratpol3d, r_rat3, 300, 1, {{0.05, 2}, {1, 2}, {0.05, 2}}, 0, 0, 0},
        {"sinecosine", g::generate_sinecosine, r_sc, 30, 1, {{0.1, 5.9}, {0.1, 5.9}}, 0, 0, 0},
        {"ripple", g::generate_ripple, r_rip, 300, 1, {{0.05, 6.05}, {0.05, 6.05}}, 0, 0, 0},
        {"ratpol2d", g::generate_ratpol2d, r_rat2, 50, 1, {{0.05, 6.05}, {0.05, 6.05}}, 0, 0, 0},
        // NIST StRD data sets: certified residual sums of squares; the weighted sums pin every single entry
        {"chwirut1", g::generate_chwirut1, nullptr, 214, 2, {{0, 0}}, 2.3844771393E+03, 820.24026124757825, 9657.3790573022579},
        {"chwirut2", g::generate_chwirut2, nullptr, 54, 2, {{1, 0}}, 5.1304802941E+02, 212.58305760305544, 2430.1983632709189},
        {"daniel_wood", g::generate_daniel_wood, nullptr, 6, 2, {{2, 0}}, 4.3173084083E-03, 12.635635390109979, 33.523562938033741},
        {"gauss1", g::generate_gauss1, nullptr, 250, 2, {{3, 0}}, 1.3158222432E+03, 47000.521906640133, 22642.627209458875},
        {"kirby2", g::generate_kirby2, nullptr, 151, 2, {{4, 0}}, 3.9050739624E+00, 45152.058573829672, 10977.944439879753},
        {"lanczos2", g::generate_lanczos2, nullptr, 24, 2, {{5, 0}}, 1.8007427409e-08, 20.768948367727276, 20.415364476061775}, // labels rounded to 4 decimals
        {"misra1b", g::generate_misra1b, nullptr, 14, 2, {{6, 0}}, 7.5464681533E-02, 7583.7496777503084, 877.80748964859299},
        {"luca1", g::generate_luca1, nullptr, 631, 2, {{7, 0}}, 0, 18157283.374964751, 293724.01412319724},
    };
    return s;
}
// A position-dependent checksum of a column (weights are generic, so that no plausible edit cancels out).
double wsum(const vvd &v)
{
    double s = 0;
    for (std::size_t i = 0; i < v.size(); ++i) s += (1. + std::fmod(double(i) * 0.6180339887498949, 1.)) * v[i][0];
    return s;
}

std::string check_data(const Spec &s, const vvd &p, const vvd &l)
{
    const std::string nm = std::string(s.name) + ": ";
    if (p.size() != s.n || l.size() != s.n)
        return nm + std::to_string(p.size()) + " points, " + std::to_string(l.size()) + " labels, expected "
               + std::to_string(s.n);
    const std::size_t dim = s.kind == 2 ? 1u : s.box.size();
    for (unsigned i = 0; i < s.n; ++i)
        if (p[i].size() != dim || l[i].size() != 1u) return nm + "wrong dimension at " + std::to_string(i);
    if (s.kind == 2) {
        const int id = int(s.box[0].first);
        if (s.rss > 0) {
            double r = 0;
            for (unsigned i = 0; i < s.n; ++i) r += sq(l[i][0] - nist(id, p[i][0]));
            if (!hc::close(r, s.rss, 1e-4)) return nm + "residual sum of squares " + hc::str(r) + " certified " + hc::str(s.rss);
        }
        if (!hc::close(wsum(p), s.sx, 1e-11)) return nm + "points differ from the published table: " + hc::str(wsum(p));
        if (!hc::close(wsum(l), s.sy, 1e-11)) return nm + "labels differ from the published table: " + hc::str(wsum(l));
        return "";
    }
    std::mt19937 mt(32);
    for (unsigned i = 0; i < s.n; ++i) {
        for (std::size_t d = 0; d < dim; ++d) {
            const double lo = s.box[d].first, hi = s.box[d].second;
            const double want = s.kind == 0 ? lo + (hi - lo) * i / (s.n - 1) : std::uniform_real_distribution<double>(lo, hi)(mt);
            if (std::fabs(p[i][d] - want) > 1e-12 * (1 + std::fabs(want)))
                return nm + "point " + std::to_string(i) + "[" + std::to_string(d) + "]=" + hc::str(p[i][d]) + " expected "
                       + hc::str(want);
        }
        const double y = s.f(p[i]);
        if (!(std::fabs(l[i][0] - y) <= 1e-9 * (1 + std::fabs(y))))
            return nm + "label " + std::to_string(i) + "=" + hc::str(l[i][0]) + " but the function is " + hc::str(y);
    }
    return "";
}
std::uint64_t digest(const vvd &p, const vvd &l)
{
    std::uint64_t h = 14695981039346656037ull;
    for (auto *v : {&p, &l})
        for (auto &r : *v)
            for (double x : r) h = (h ^ dsim::bits(x)) * 1099511628211ull;
    return h;
}
void verify(const Spec &s, const vvd &p, const vvd &l, const char *ctx)
{
    dsim::Quiet q;
    const std::string e = check_data(s, p, l);
    DSIM_CHECK(e.empty(), "wrong-dataset", std::string(ctx) + ": " + e);
    dsim::event(s.name, digest(p, l));
}
void dirty(vvd &p, vvd &l)
{
    switch (dsim::pick(5)) {
        case 0: p.clear(); l.clear(); break;
        case 1: break; // whatever the previous call left
        case 2: p = hc::rnd_rows(dsim::range(1, 4), dsim::range(1, 3), -9, 9); break;
        case 3: l = hc::rnd_rows(dsim::range(1, 4), dsim::range(1, 3), -9, 9); break;
        default:
            p.assign(dsim::range(1, 3), {});
            l.assign(dsim::range(1, 3), vd(7, 1.));
    }
}

void sequential()
{
    vvd p, l;
    const unsigned n = dsim::range(1, 6);
    for (unsigned i = 0; i < n; ++i) {
        const Spec &s = specs()[dsim::pick(unsigned(specs().size()))];
        dirty(p, l);
        // the program's random state is none of the generators' business, and vice versa
        if (dsim::chance(1, 3)) dcgp::random_device::set_seed(dsim::pick(1000));
        if (dsim::chance(1, 3)) std::srand(dsim::pick(1000));
        const bool watch = dsim::chance(1, 2);
        if (watch) dcgp::random_device::set_seed(77u);
        const bool ent = dsim::fchance(1, 4);
        if (ent) dsim::arm_entropy_fault(true); // no entropy is needed
        if (dsim::fchance(1, 3)) {
            const std::uint64_t k = dsim::fpick(3u * s.n + 8u);
            const int r = hc::with_alloc_fault(k, [&] { s.gen(p, l); });
            DSIM_CHECK(r != 2, "unexpected-exception", std::string(s.name) + ": wrong exception on memory exhaustion");
            if (r == 0) verify(s, p, l, "after a survived allocation failure");
            else dsim::probe("generation-failed-by-alloc");
            // a later call must not be affected by the aborted one
        }
        s.gen(p, l);
        if (ent) dsim::arm_entropy_fault(false);
        verify(s, p, l, "sequential");
        if (watch) {
            const auto a = dcgp::random_device::next();
            dcgp::random_device::set_seed(77u);
            DSIM_CHECK(a == dcgp::random_device::next(), "global-rng-consumed",
                       std::string(s.name) + ": generating a benchmark consumed global random numbers");
        }
        // what the caller does with its copy cannot affect later calls
        if (dsim::chance(1, 2)) {
            for (auto &r : p) r[0] += 1.;
            for (auto &r : l) r[0] *= 2.;
        }
    }
    dsim::nontrivial();
}
void concurrent()
{
    dsim::configure_schedule();
    const unsigned nt = dsim::range(2, 4);
    std::vector<std::vector<unsigned>> plan(nt);
    // mostly the cheap ones, so that many schedules are explored; sometimes the same one on every thread
    const bool same = dsim::chance(1, 2);
    const unsigned one = dsim::pick(unsigned(specs().size()));
    for (auto &t : plan)
        for (unsigned i = 0, n = dsim::range(1, 3); i < n; ++i) {
            unsigned k = same ? one : dsim::pick(unsigned(specs().size()));
            if (specs()[k].n > 320u && !dsim::chance(1, 4)) k = dsim::pick(8);
            t.push_back(k);
        }
    const bool stir = dsim::chance(1, 3);
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            vvd p, l;
            for (unsigned k : plan[t]) {
                specs()[k].gen(p, l);
                verify(specs()[k], p, l, "concurrent");
            }
        });
    if (stir)
        bodies.push_back([] {
            for (unsigned i = 0; i < 4; ++i) dcgp::random_device::set_seed(i);
        });
    dsim::run_threads(bodies);
    dsim::nontrivial();
}
// the public point-wise benchmark functions agree with the generated labels and with the formulas anywhere
void functions()
{
    using FP = double (*)(const vd &);
    namespace d = dcgp::gym::detail;
    static const FP real[] = {d::koza_quintic, d::P1, d::P2, d::P3, d::P4, d::P5, d::P6, d::P7, d::salutowicz,
                              d::kotanchek, d::salutowicz2d, d::uball5d, d::ratpol3d, d::sinecosine, d::ripple, d::ratpol2d};
    for (unsigned i = 0, n = dsim::range(1, 8); i < n; ++i) {
        const unsigned k = dsim::pick(16);
        vd x = hc::rnd_vd(specs()[k].box.size(), -7, 7);
        const double a = real[k](x), b = specs()[k].f(x);
        DSIM_CHECK(hc::close(a, b, 1e-8) || std::fabs(a - b) < 1e-9 * (1 + std::fabs(b)), "wrong-function",
                   std::string(specs()[k].name) + hc::str(x) + " = " + hc::str(a) + " expected " + hc::str(b));
        dsim::event(specs()[k].name, dsim::bits(a));
    }
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(G01, sequential, 4) { sequential(); }
DSIM_SCENARIO(G01, concurrent, 3) { concurrent(); }
DSIM_SCENARIO(G01, functions, 1) { functions(); }
