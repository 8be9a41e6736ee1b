// F01 (value semantics and exception safety of the callable wrapper), C07 (thread-safety levels, function and
// kernel part), S03 (failed loads), C04 (concurrent use of a shared wrapper).
#include "common.hpp"

#include <map>
#include <memory>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/optional.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <pagmo/threading.hpp>

#include <dcgp/function.hpp>
#include <dcgp/kernel.hpp>
#include <dcgp/kernel_set.hpp>
#include <dcgp/s11n.hpp>

#include "kernels.hpp"

using hc::chance;
using hc::pick;
using hc::range;
using TS = pagmo::thread_safety;

namespace
{
// ---- instrumented callable ------------------------------------------------------------------------
int g_live = 0;        // live instances
// a callable that cannot be stored or restored at the moment: the n-th one met
int g_refuse = -1;
struct Refusal {
};
struct LoudRefusal : Refusal, std::runtime_error {
    LoudRefusal() : std::runtime_error("refused") {}
};
void may_refuse(int kind)
{
    if (g_refuse < 0 || g_refuse-- > 0) return;
    dsim::fault_fired("callable-not-stored");
    if (kind & 1) throw Refusal();
    throw LoudRefusal();
}
int g_copy_fault = -1; // the n-th copy from now throws
unsigned g_copies = 0;

struct copy_failed : std::runtime_error {
    copy_failed() : std::runtime_error("copy failed") {}
};

template <int Tag, bool NothrowMove>
struct Probe {
    int id = 0;
    std::vector<int> payload; // owned memory: a shallow copy would alias
    TS level = TS::basic;
    unsigned magic = 0xC0FFEEu;

    explicit Probe(int i = 0, TS l = TS::basic) : id(i), payload(std::size_t(i % 5 + 1), i), level(l) { live(1); }
    static void live(int d) // bookkeeping of the harness, not part of the callable
    {
        dsim::Quiet q;
        g_live += d;
    }
    Probe(const Probe &o) : id(o.id), payload(o.payload), level(o.level)
    {
        dsim::Quiet q;
        if (o.magic != 0xC0FFEEu) dsim::violation("use-of-dead-object", "a destroyed callable was copied");
        ++g_copies;
        if (g_copy_fault == 0) {
            g_copy_fault = -1;
            dsim::fault_fired("callable-copy-throws");
            throw copy_failed();
        }
        if (g_copy_fault > 0) --g_copy_fault;
        ++g_live;
    }
    Probe(Probe &&o) noexcept(NothrowMove) : id(o.id), payload(std::move(o.payload)), level(o.level) { live(1); }
    Probe &operator=(const Probe &) = default;
    ~Probe()
    {
        if (magic != 0xC0FFEEu) dsim::violation("double-destroy", "a callable was destroyed twice");
        magic = 0xDEADu;
        live(-1);
    }
    int value(int x) const
    {
        int s = id * 1000 + Tag * 100;
        for (int p : payload) s += p;
        return s + x;
    }
    int operator()(int x, const std::string &t) const
    {
        if (magic != 0xC0FFEEu) dsim::violation("use-of-dead-object", "a destroyed callable was invoked");
        return value(x) + int(t.size());
    }
    TS get_thread_safety() const { return level; }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        may_refuse(id);
        ar &id &payload &level;
    }
};
using PA = Probe<1, true>;
using PB = Probe<2, false>;
struct Plain { // no thread-safety level of its own
    int id = 7;
    int operator()(int x, const std::string &t) const { return id * 7 + x + int(t.size()); }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &id;
        may_refuse(id);
    }
};
int fp1(int x, const std::string &t) { return x + int(t.size()) + 11; }
int fp2(int x, const std::string &t) { return x + int(t.size()) + 22; }
using Sig = int(int, const std::string &);
using Fn = dcgp::function<Sig>;
using Ptr = int (*)(int, const std::string &);

// ---- model ---------------------------------------------------------------------------------------
struct M {
    enum Kind { Null, Fp, A, B, P, Moved } kind = Null;
    int id = 0;
    int extra = 0; // sum of payload
    TS level = TS::basic;
    Ptr fp = nullptr;
};
int model_call(const M &m, int x, const std::string &t)
{
    switch (m.kind) {
        case M::Fp: return m.fp(x, t);
        case M::A: return m.id * 1000 + 100 + m.extra + x + int(t.size());
        case M::B: return m.id * 1000 + 200 + m.extra + x + int(t.size());
        case M::P: return m.id * 7 + x + int(t.size());
        default: return 0;
    }
}
void check_one(const Fn &f, const M &m, const char *ctx)
{
    const std::string where = std::string(ctx) + ": ";
    if (m.kind == M::Moved) {
        DSIM_CHECK(!f.is_valid(), "wrong-validity", where + "a moved-from wrapper reports itself valid");
        return;
    }
    DSIM_CHECK(f.is_valid(), "wrong-validity", where + "a wrapper holding a callable reports itself invalid");
    DSIM_CHECK(f.get_thread_safety() == m.level, "wrong-thread-safety",
               where + "level " + std::to_string(int(f.get_thread_safety())) + " expected " + std::to_string(int(m.level)));
    DSIM_CHECK(f.is<Ptr>() == (m.kind == M::Null || m.kind == M::Fp), "wrong-type", where + "is<pointer> is wrong");
    DSIM_CHECK(f.is<PA>() == (m.kind == M::A), "wrong-type", where + "is<A> is wrong");
    DSIM_CHECK(f.is<PB>() == (m.kind == M::B), "wrong-type", where + "is<B> is wrong");
    DSIM_CHECK(f.is<Plain>() == (m.kind == M::P), "wrong-type", where + "is<Plain> is wrong");
    DSIM_CHECK((f.extract<PA>() != nullptr) == (m.kind == M::A), "wrong-type", where + "extract<A> is wrong");
    if (m.kind == M::Null) {
        bool threw = false;
        try {
            f(1, "a");
        } catch (const std::runtime_error &) {
            threw = true;
        }
        DSIM_CHECK(threw, "null-call", where + "invoking a default constructed wrapper did not throw");
        return;
    }
    for (int x : {0, 5}) {
        const std::string t(std::size_t(x), 'q');
        const int got = f(x, t), want = model_call(m, x, t);
        DSIM_CHECK(got == want, "wrong-call-result",
                   where + "call returned " + std::to_string(got) + " expected " + std::to_string(want));
    }
}

template <typename OA, typename IA>
void round_trip(const Fn &a, Fn &b)
{
    std::stringstream ss;
    {
        OA oa(ss);
        oa << a;
    }
    IA ia(ss);
    ia >> b;
}

void wrapper_history(bool faults)
{
    const unsigned K = 4;
    std::vector<Fn> f(K);
    std::vector<M> m(K);
    const unsigned nops = range(3, 24);
    int next_id = 1;
    const int live0 = g_live;
    for (unsigned step = 0; step < nops; ++step) {
        const unsigned a = pick(K), b = pick(K);
        const unsigned op = pick(13);
        // faults for this step
        std::uint64_t alloc_n = ~0ull;
        g_copy_fault = -1;
        int copy_n = -1;
        if (faults && dsim::fchance(1, 3)) {
            if (dsim::fchance(1, 2)) alloc_n = dsim::fpick(4);
            else copy_n = int(dsim::fpick(2));
        }
        const M ma = m[a], mb = m[b];
        // what the wrapper holds if the operation succeeds
        M na = ma, nb = mb;
        const TS lv = TS(int(pick(3)));
        const int id = next_id++;
        bool threw = false;
        const char *name = "?";
        auto fresh = [&](M::Kind k) {
            M r;
            r.kind = k;
            r.id = id;
            r.level = lv;
            r.extra = (id % 5 + 1) * id;
            return r;
        };
        bool fired = false;
        auto guarded = [&](auto &&body) {
            g_copy_fault = copy_n;
            if (alloc_n != ~0ull) dsim::arm_alloc_fault(alloc_n);
            try {
                body();
            } catch (const std::bad_alloc &) {
                threw = true;
            } catch (const copy_failed &) {
                threw = true;
            }
            if (alloc_n != ~0ull) fired = dsim::disarm_alloc_fault();
            if (copy_n >= 0 && g_copy_fault == -1) fired = true;
            g_copy_fault = -1;
            if (fired) dsim::probe("operation-failed-by-injected-fault");
        };
        switch (op) {
            case 0: // assign from an lvalue callable
                name = "assign-from-lvalue";
                {
                    PA p(id, lv);
                    na = fresh(M::A);
                    guarded([&] { f[a] = p; });
                    DSIM_CHECK(p.id == id && p.payload.size() == std::size_t(id % 5 + 1), "source-modified",
                               "assigning from an lvalue callable modified it");
                }
                break;
            case 1:
                name = "assign-from-rvalue";
                na = fresh(M::B);
                guarded([&] { f[a] = PB(id, lv); });
                break;
            case 2:
                name = "assign-from-pointer";
                na = M{};
                na.kind = M::Fp;
                na.fp = chance(1, 2) ? fp1 : fp2;
                guarded([&] {
                    if (na.fp == fp1) f[a] = fp1; // function type
                    else f[a] = &fp2;             // pointer
                });
                break;
            case 3:
                name = "assign-plain";
                {
                    const Plain p{id};
                    na = fresh(M::P);
                    na.level = TS::basic;
                    guarded([&] { f[a] = Fn(p); });
                }
                break;
            case 4: // copy construct
                if (mb.kind == M::Moved) continue;
                name = "copy-construct";
                guarded([&] {
                    Fn c(f[b]);
                    check_one(c, mb, "copy");
                });
                na = ma;
                break;
            case 5: // copy assign (possibly self)
                if (mb.kind == M::Moved) continue;
                name = a == b ? "self-copy-assign" : "copy-assign";
                na = mb;
                guarded([&] { f[a] = static_cast<const Fn &>(f[b]); });
                break;
            case 6: // move assign (possibly self)
                name = a == b ? "self-move-assign" : "move-assign";
                if (a != b) {
                    na = mb;
                    nb = mb;
                    nb.kind = M::Moved;
                }
                {
                    Fn &fa = f[a];
                    Fn &fb = f[b];
                    guarded([&] { fa = std::move(fb); });
                    DSIM_CHECK(!threw, "move-throws", "moving a wrapper threw");
                }
                break;
            case 7: // move construct and put back elsewhere
                if (a == b) continue;
                name = "move-construct";
                na = mb;
                nb = mb;
                nb.kind = M::Moved;
                guarded([&] {
                    Fn t(std::move(f[b]));
                    f[a] = std::move(t);
                    DSIM_CHECK(!t.is_valid() , "wrong-validity", "moved-from local wrapper is still valid");
                });
                DSIM_CHECK(!threw, "move-throws", "moving a wrapper threw");
                break;
            case 8: // mutate through extract: copies must not see it
                if (ma.kind == M::A) {
                    name = "mutate-through-extract";
                    PA *p = f[a].extract<PA>();
                    DSIM_CHECK(p != nullptr, "wrong-type", "extract returned null");
                    Fn before(f[a]);
                    p->payload[0] += 5;
                    na.extra += 5;
                    check_one(before, ma, "earlier copy after mutating the original");
                } else
                    continue;
                break;
            case 9: // serialization round trip into another slot
            case 10: {
                if (mb.kind == M::Moved || mb.kind == M::Null || mb.kind == M::Fp) continue;
                name = "serialization-round-trip";
                na = mb;
                const bool text = op == 9;
                bool other = false;
                guarded([&] {
                    try {
                        if (text) round_trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(f[b], f[a]);
                        else round_trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(f[b], f[a]);
                    } catch (const std::bad_alloc &) {
                        throw;
                    } catch (const copy_failed &) {
                        throw;
                    } catch (...) {
                        other = true; // streams swallow bad_alloc and archives then report a stream error
                    }
                });
                if (other) {
                    DSIM_CHECK(fired || alloc_n != ~0ull, "unexpected-exception", "round trip threw without any fault");
                    threw = true;
                }
                break;
            }
            case 11: { // lambda with a level obtained from a reference wrapper
                name = "assign-moved-probe";
                na = fresh(M::A);
                PA p(id, lv);
                guarded([&] { f[a] = std::move(p); });
                break;
            }
            default: { // swap
                name = "swap";
                guarded([&] { std::swap(f[a], f[b]); });
                DSIM_CHECK(!threw, "move-throws", "swapping wrappers threw");
                na = mb;
                nb = ma;
                if (a == b) na = nb = ma;
            }
        }
        g_copy_fault = -1;
        dsim::event(name, a, b, threw);
        if (threw) {
            dsim::nontrivial();
            na = ma;
            nb = mb; // an operation that failed has no effect
        }
        if (b != a) m[b] = nb;
        m[a] = na;
        for (unsigned i = 0; i < K; ++i) check_one(f[i], m[i], threw ? (std::string(name) + " (failed)").c_str() : name);
    }
    int expect = 0;
    for (auto &x : m) expect += x.kind == M::A || x.kind == M::B;
    DSIM_CHECK(g_live - live0 == expect, "leak",
               "live callables " + std::to_string(g_live - live0) + " expected " + std::to_string(expect));
    f.clear();
    DSIM_CHECK(g_live == live0, "leak", "callables survive the wrappers that own them: " + std::to_string(g_live - live0));
    if (nops > 6) dsim::nontrivial();
}

// ---- arguments are forwarded without loss -----------------------------------------------------------
struct RefF {
    int k = 3;
    void operator()(std::vector<int> &v) const { v.push_back(k); }
};
struct MoveF {
    std::size_t operator()(std::unique_ptr<int> p, std::string s) const { return std::size_t(*p) + s.size(); }
};
struct RetRef {
    const std::string &operator()(const std::string &s) const { return s; }
};
struct Thrower {
    int operator()(int x) const
    {
        if (x % 3 == 0) throw std::domain_error("no " + std::to_string(x));
        return x * 2;
    }
};
// counts its calls, looks at its arguments, and fails in the way it is told to
struct CountSheet {
    unsigned calls = 0, bad_args = 0;
    int how = 0;
} g_sheet;
struct NotAnException {
    int v;
};
void fail_as(int how)
{
    switch (how) {
        case 1: throw std::bad_alloc();
        case 2: throw std::bad_function_call();
        case 3: throw std::runtime_error("c3");
        case 4: throw std::invalid_argument("c4");
        case 5: throw NotAnException{5};
        case 6: throw std::bad_array_new_length();
        case 7: throw std::length_error("c7");
        default:;
    }
}
int how_it_failed(const std::function<void()> &f)
{
    try {
        f();
    } catch (const std::bad_array_new_length &) {
        return 6;
    } catch (const std::bad_alloc &) {
        return 1;
    } catch (const std::bad_function_call &) {
        return 2;
    } catch (const std::invalid_argument &e) {
        return e.what() == std::string("c4") ? 4 : -1;
    } catch (const std::length_error &e) {
        return e.what() == std::string("c7") ? 7 : -1;
    } catch (const std::runtime_error &e) {
        return e.what() == std::string("c3") ? 3 : -1;
    } catch (const NotAnException &e) {
        return e.v == 5 ? 5 : -1;
    } catch (...) {
        return -1;
    }
    return 0;
}
struct CountM {
    int operator()(std::unique_ptr<int> p, std::vector<int> v, int &out) const
    {
        g_sheet.calls++;
        if (!p || *p != 7 || v.size() != 3 || v[2] != 30) g_sheet.bad_args++;
        out = int(g_sheet.calls);
        fail_as(g_sheet.how);
        return p ? *p : -1;
    }
};
struct CountK {
    double operator()(const std::vector<double> &v) const
    {
        g_sheet.calls++;
        if (v.size() != 2 || v[1] != 4.) g_sheet.bad_args++;
        fail_as(g_sheet.how);
        return v[0] + v[1];
    }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
struct CountP {
    std::string operator()(const std::vector<std::string> &v) const
    {
        g_sheet.calls++;
        if (v.size() != 2 || v[1] != "y") g_sheet.bad_args++;
        fail_as(g_sheet.how);
        return v[0] + v[1];
    }
    template <typename Ar>
    void serialize(Ar &, unsigned)
    {
    }
};
// every invocation of the wrapper is one invocation of the callable, whatever becomes of it
void called_once()
{
    dcgp::function<int(std::unique_ptr<int>, std::vector<int>, int &)> f{CountM{}};
    dcgp::kernel<double> k(CountK{}, CountP{}, "counted");
    for (unsigned i = 0, n = range(1, 8); i < n; ++i) {
        g_sheet = CountSheet{};
        g_sheet.how = chance(1, 3) ? 0 : int(range(1, 7));
        int out = 0, failed = 0, what = int(pick(3));
        failed = how_it_failed([&] {
            if (what == 0) {
                auto c = f;
                const int r = (chance(1, 2) ? c : f)(std::make_unique<int>(7), std::vector<int>{10, 20, 30}, out);
                if (r != 7) g_sheet.bad_args++;
            } else if (what == 1) {
                if (k({2., 4.}) != 6.) g_sheet.bad_args++;
            } else if (k(std::vector<std::string>{"x", "y"}) != "xy")
                g_sheet.bad_args++;
        });
        const std::string w = "a callable that " + (g_sheet.how ? "fails with exception " + std::to_string(g_sheet.how) : std::string("returns")) + ": ";
        DSIM_CHECK(g_sheet.calls == 1u, "calls", w + "one invocation of the wrapper called it " + std::to_string(g_sheet.calls) + " times");
        DSIM_CHECK(g_sheet.bad_args == 0u, "arguments", w + "it did not get the arguments, or its result was lost");
        DSIM_CHECK(failed == g_sheet.how, "callable-exception", w + "the exception came out as " + std::to_string(failed));
        DSIM_CHECK(what != 0 || out == 1, "reference-argument", w + "a reference argument was not passed through");
        if (g_sheet.how) dsim::fault_fired("callable-throws");
        dsim::event("call", unsigned(g_sheet.how), unsigned(what));
    }
    dsim::nontrivial();
}
void forwarding()
{
    dcgp::function<void(std::vector<int> &)> fr{RefF{int(range(1, 9))}};
    dcgp::function<std::size_t(std::unique_ptr<int>, std::string)> fm{MoveF{}};
    dcgp::function<const std::string &(const std::string &)> fs{RetRef{}};
    dcgp::function<int(int)> ft{Thrower{}};
    const unsigned n = range(1, 8);
    std::vector<int> v;
    for (unsigned i = 0; i < n; ++i) {
        auto c = fr;
        (chance(1, 2) ? c : fr)(v);
        DSIM_CHECK(v.size() == i + 1, "reference-argument", "a reference argument was not passed through");
        const int k = int(pick(50));
        const std::string s(pick(20), 'z');
        DSIM_CHECK(fm(std::make_unique<int>(k), s) == std::size_t(k) + s.size(), "move-only-argument",
                   "a move-only argument was lost");
        DSIM_CHECK(&fs(s) == &s, "reference-return", "a returned reference does not refer to the argument");
        bool threw = false;
        int r = 0;
        try {
            r = ft(k);
        } catch (const std::domain_error &e) {
            threw = e.what() == "no " + std::to_string(k);
        }
        DSIM_CHECK(threw == (k % 3 == 0) && (threw || r == 2 * k), "callable-exception",
                   "an exception thrown by the callable was not propagated unchanged");
        dsim::event("forward", unsigned(k), threw);
    }
    dsim::nontrivial();
}

// ---- C04: concurrent const use ---------------------------------------------------------------------
void concurrent_wrapper()
{
    const unsigned T = range(2, 4), n = range(1, 5);
    const int id = int(range(1, 9));
    Fn shared{PA(id, TS::constant)};
    dcgp::kernel<double> ker(
        [](const std::vector<double> &v) { return v[0] * 2. + v.size(); },
        [](const std::vector<std::string> &v) { return "2*" + v[0]; }, "twice");
    const int base = shared(0, "");
    std::vector<std::string> bad(T);
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < T; ++t)
        bodies.push_back([&, t] {
            for (unsigned i = 0; i < n; ++i) {
                if (shared(int(i), "ab") != base + int(i) + 2) bad[t] = "shared wrapper returned a wrong value";
                Fn mine(shared);
                mine.extract<PB>();
                Fn other;
                other = mine;
                if (other(1, "") != base + 1) bad[t] = "copy returned a wrong value";
                if (!shared.is<PA>() || shared.get_thread_safety() != TS::constant) bad[t] = "shared wrapper changed";
                mine = Plain{int(t) + 1};
                if (mine(0, "") != (int(t) + 1) * 7) bad[t] = "private copy returned a wrong value";
                if (ker({double(t), 1.}) != t * 2. + 2.) bad[t] = "shared kernel returned a wrong value";
                auto k2 = ker;
                if (k2.get_name() != "twice" || k2(std::vector<std::string>{"x"}) != "2*x") bad[t] = "kernel copy is wrong";
            }
        });
    dsim::run_threads(bodies);
    for (auto &b : bad) DSIM_CHECK(b.empty(), "concurrent-result", b);
    dsim::nontrivial();
}

// ---- callables that call each other ----------------------------------------------------------------
// a node of a call graph: evaluates others in the middle of its own evaluation and then looks at its arguments again
struct Node {
    const std::vector<dcgp::kernel<double>> *all = nullptr;
    unsigned id = 0, how = 0;
    double operator()(const std::vector<double> &v) const
    {
        const double a = v[0], b = v[1];
        double s = 0;
        if (id) {
            const auto &next = (*all)[id - 1];
            if (how == 0) s = next({a + 1., b});
            else if (how == 1) s = next(std::vector<double>{b, a - 1.});
            else s = next({a, 2.}) + next({b, a});
        }
        return 3. * s + v[0] * 2. + v[1] + double(v.size()); // the arguments, again
    }
};
struct NodePrinter {
    const std::vector<dcgp::kernel<double>> *all = nullptr;
    unsigned id = 0, how = 0;
    std::string operator()(const std::vector<std::string> &v) const
    {
        std::string s;
        if (id) {
            const auto &next = (*all)[id - 1];
            if (how == 0) s = next(std::vector<std::string>{v[0] + "1", v[1]});
            else s = next(std::vector<std::string>{v[1], "2"}) + next(std::vector<std::string>{v[0], v[0]});
        }
        return "(" + s + v[0] + "," + v[1] + ")";
    }
};
void nested()
{
    const unsigned K = range(2, 5);
    std::vector<dcgp::kernel<double>> all;
    std::vector<unsigned> hows;
    all.reserve(K);
    for (unsigned i = 0; i < K; ++i) {
        hows.push_back(pick(3));
        all.emplace_back(Node{&all, i, hows[i]}, NodePrinter{&all, i, hows[i]}, "node" + std::to_string(i));
    }
    std::function<double(unsigned, double, double)> f = [&](unsigned i, double a, double b) {
        double s = 0;
        if (i) {
            if (hows[i] == 0) s = f(i - 1, a + 1., b);
            else if (hows[i] == 1) s = f(i - 1, b, a - 1.);
            else s = f(i - 1, a, 2.) + f(i - 1, b, a);
        }
        return 3. * s + a * 2. + b + 2.;
    };
    std::function<std::string(unsigned, std::string, std::string)> g = [&](unsigned i, std::string a, std::string b) {
        std::string s;
        if (i) s = hows[i] == 0 ? g(i - 1, a + "1", b) : g(i - 1, b, "2") + g(i - 1, a, a);
        return "(" + s + a + "," + b + ")";
    };
    auto body = [&](unsigned id) {
        const double a = double(id % 3), b = 0.5;
        const double x = all[id]({a, b}), y = all[id](std::vector<double>{a, b});
        DSIM_CHECK(x == f(id, a, b) && y == x, "wrong-call",
                   "a callable that calls others gave " + hc::str(x) + " and " + hc::str(y) + " expected " + hc::str(f(id, a, b)));
        const std::string t = all[id](std::vector<std::string>{"a", "b"});
        DSIM_CHECK(t == g(id, "a", "b"), "wrong-call", "a printing callable that calls others gave " + t);
    };
    const unsigned n = range(1, 4);
    for (unsigned i = 0; i < n; ++i) body(pick(K));
    dsim::nontrivial();
}

// ---- kernels -------------------------------------------------------------------------------------
struct KF {
    double k = 1;
    TS level = TS::basic;
    double operator()(const std::vector<double> &v) const { return k * v[0]; }
    TS get_thread_safety() const { return level; }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        may_refuse(int(k));
        ar &k &level;
    }
};
struct KP {
    std::string n = "k";
    TS level = TS::basic;
    std::string operator()(const std::vector<std::string> &v) const { return n + "(" + v[0] + ")"; }
    TS get_thread_safety() const { return level; }
    template <typename Ar>
    void serialize(Ar &ar, unsigned)
    {
        ar &n &level;
        may_refuse(n.empty() ? 0 : n[0]);
    }
};
using Ker = dcgp::kernel<double>;
struct KM {
    double k = 0;
    std::string p, name;
    TS level = TS::basic;
    bool null = true;
};
void check_kernel(const Ker &k, const KM &m, const char *ctx)
{
    const std::string w = std::string(ctx) + ": ";
    DSIM_CHECK(k.get_thread_safety() == m.level, "wrong-thread-safety",
               w + "kernel level " + std::to_string(int(k.get_thread_safety())) + " expected " + std::to_string(int(m.level)));
    DSIM_CHECK(k.get_name() == m.name, "wrong-kernel", w + "name '" + k.get_name() + "' expected '" + m.name + "'");
    if (m.null) {
        bool threw = false;
        try {
            k(std::vector<double>{1.});
        } catch (const std::runtime_error &) {
            threw = true;
        }
        DSIM_CHECK(threw, "null-call", w + "invoking a default constructed kernel did not throw");
        return;
    }
    DSIM_CHECK(k(std::vector<double>{3.}) == 3. * m.k, "wrong-kernel", w + "value is wrong");
    DSIM_CHECK(k({3., 4.}) == 3. * m.k, "wrong-kernel", w + "value (list) is wrong");
    DSIM_CHECK(k(std::vector<std::string>{"x"}) == m.p + "(x)", "wrong-kernel", w + "symbol is wrong");
}
template <typename T>
std::string dump(const T &k, bool text)
{
    std::ostringstream os;
    if (text) {
        boost::archive::text_oarchive oa(os);
        oa << k;
    } else {
        boost::archive::binary_oarchive oa(os);
        oa << k;
    }
    return os.str();
}
template <typename T>
void undump(const std::string &s, T &k, bool text)
{
    std::istringstream is(s);
    if (text) {
        boost::archive::text_iarchive ia(is);
        ia >> k;
    } else {
        boost::archive::binary_iarchive ia(is);
        ia >> k;
    }
}
Ker make_kernel(KM &m, unsigned i)
{
    KF f;
    KP p;
    f.k = double(range(1, 9));
    p.n = std::string(1, char('a' + pick(26)));
    f.level = TS(int(pick(3)));
    p.level = TS(int(pick(3)));
    m.null = false;
    m.k = f.k;
    m.p = p.n;
    m.name = "ker" + std::to_string(i);
    switch (pick(3)) {
        case 0: m.level = std::min(f.level, p.level); return Ker(f, p, m.name);
        case 1: // printing function without a level of its own: counts as basic
            m.level = std::min(f.level, TS::basic);
            m.p = "plain";
            return Ker(f, [](const std::vector<std::string> &v) { return "plain(" + v[0] + ")"; }, m.name);
        default: {
            const Ker::my_fun_type ff(f);
            const Ker::my_print_fun_type pf(p);
            m.level = std::min(f.level, p.level);
            return Ker(ff, pf, m.name);
        }
    }
}
// the level of a wrapper is the level its callable declares, for ever
void levels_history()
{
    const unsigned K = 3;
    std::vector<Ker> k(K);
    std::vector<KM> m(K);
    std::vector<bool> lambda(K, false);
    const unsigned n = range(2, 14);
    for (unsigned s = 0; s < n; ++s) {
        const unsigned a = pick(K), b = pick(K);
        const char *name = "";
        switch (pick(6)) {
            case 0:
            case 1: {
                KM mm;
                k[a] = make_kernel(mm, s);
                m[a] = mm;
                lambda[a] = mm.p == "plain";
                name = "construct";
                break;
            }
            case 2:
                k[a] = static_cast<const Ker &>(k[b]);
                m[a] = m[b];
                lambda[a] = lambda[b];
                name = "copy-assign";
                break;
            case 3: {
                Ker c(k[b]);
                Ker d(std::move(c));
                k[a] = std::move(d);
                m[a] = m[b];
                lambda[a] = lambda[b];
                name = "move";
                break;
            }
            default: {
                if (lambda[b] || m[b].null) continue; // lambdas and null pointers are not serializable
                const bool text = chance(1, 2);
                const std::string d = dump(k[b], text);
                if (chance(1, 3)) { // restart: load into a freshly constructed object
                    Ker nk;
                    undump(d, nk, text);
                    k[a] = nk;
                } else
                    undump(d, k[a], text);
                m[a] = m[b];
                lambda[a] = false;
                name = "serialization";
                dsim::probe("kernel-round-trip");
            }
        }
        dsim::event(name, a, b);
        for (unsigned i = 0; i < K; ++i) check_kernel(k[i], m[i], name);
    }
    dsim::nontrivial();
}
// default constructed objects in recycled memory
void default_kernel_level()
{
    const unsigned n = range(1, 4);
    for (unsigned i = 0; i < n; ++i) {
        alignas(Ker) unsigned char buf[sizeof(Ker)];
        std::memset(buf, int(pick(256)), sizeof buf); // arbitrary previous content
        Ker *k = new (buf) Ker();
        KM m;
        check_kernel(*k, m, "default construction");
        Ker *k2 = new Ker(*k);
        check_kernel(*k2, m, "copy of a default constructed kernel");
        delete k2;
        k->~Ker();
    }
    dsim::nontrivial();
}

// ---- S03 -----------------------------------------------------------------------------------------
// a store that runs out of memory, or that the callable refuses; the result as of with_alloc_fault
template <typename F>
int store_fault(bool refuse, F &&f)
{
    if (!refuse) return hc::with_alloc_fault(dsim::fpick(20), f);
    int r = 0;
    g_refuse = int(dsim::fpick(2));
    try {
        f();
    } catch (...) {
        r = 2;
    }
    g_refuse = -1;
    return r;
}
// a load that fails leaves the wrapper as it was; a failing store never damages the source
template <bool Text>
void failed_io()
{
    using OA = std::conditional_t<Text, boost::archive::text_oarchive, boost::archive::binary_oarchive>;
    using IA = std::conditional_t<Text, boost::archive::text_iarchive, boost::archive::binary_iarchive>;
    M ms, mt;
    auto mk = [](M &m) {
        m.id = int(range(1, 400));
        m.level = TS(int(pick(3)));
        m.extra = (m.id % 5 + 1) * m.id;
        switch (pick(3)) {
            case 0: m.kind = M::A; return Fn(PA(m.id, m.level));
            case 1: m.kind = M::B; return Fn(PB(m.id, m.level));
            default: m.kind = M::P; m.level = TS::basic; return Fn(Plain{m.id});
        }
    };
    Fn src = mk(ms);
    Fn dst;
    if (chance(3, 4)) dst = mk(mt);
    // (Boost archives leak the object under construction when a pointer load throws: not the wrapper's doing)
    const unsigned mode = dsim::fpick(5);
    if (mode >= 3) { // out of memory while storing, or a callable that cannot be stored
        hc::FaultyBuf fb;
        fb.data.reserve(1u << 16);
        std::ostream os(&fb);
        const int r = store_fault(mode == 4, [&] {
            OA oa(os);
            oa << src;
        });
        if (!r && os.good()) DSIM_CHECK(fb.data == dump(src, Text), "silent-store-failure", "a store that failed half-way reported success");
        check_one(src, ms, "source after a failed store");
        dsim::event("store-refused", mode, unsigned(r));
        if (mode == 4 && chance(1, 2)) { // the same while loading
            const std::string full = dump(src, Text);
            std::istringstream is(full);
            bool threw = false;
            g_refuse = 0;
            try {
                IA ia(is);
                ia >> dst;
            } catch (...) {
                threw = true;
            }
            g_refuse = -1;
            DSIM_CHECK(threw, "silent-load-failure", "a callable that could not be restored was loaded without an error");
            check_one(dst, mt, "target after a failed load");
            undump(full, dst, Text);
            check_one(dst, ms, "target after a later successful load");
        }
    } else if (mode == 0) { // disk full while storing
        const std::string full = dump(src, Text);
        hc::FaultyBuf fb;
        fb.limit = dsim::fpick(unsigned(full.size()));
        std::ostream os(&fb);
        bool threw = false;
        try {
            OA oa(os);
            oa << src;
        } catch (...) {
            threw = true;
        }
        dsim::fault_fired("store-short-write");
        DSIM_CHECK(threw || !os.good() || fb.tripped, "silent-store-failure",
                   "a store that lost bytes reported success");
        check_one(src, ms, "source after a failed store");
        dsim::event("store-fault", fb.limit, threw);
    } else if (mode == 1) { // torn file / short read
        const std::string full = dump(src, Text);
        hc::FaultyBuf fb;
        fb.data = full;
        // the last bytes of a text archive are a number: cutting them is not detectable by any reader
        std::size_t maxcut = full.size();
        if (Text) {
            maxcut = full.find_last_of(" \n\r", full.find_last_not_of(" \n\r"));
        }
        fb.limit = dsim::fpick(unsigned(maxcut));
        std::istream is(&fb);
        bool threw = false;
        try {
            IA ia(is);
            ia >> dst;
        } catch (...) {
            threw = true;
        }
        dsim::fault_fired("load-short-read");
        DSIM_CHECK(threw, "truncated-load-accepted",
                   "an archive truncated to " + std::to_string(fb.limit) + " of " + std::to_string(full.size())
                       + " bytes was loaded without an error");
        check_one(dst, mt, "target after a failed load");
        check_one(src, ms, "source");
        dsim::event("load-fault", fb.limit, threw);
        // and the same target accepts the complete archive afterwards
        undump(full, dst, Text);
        check_one(dst, ms, "target after a later successful load");
    } else { // out of memory while loading
        const std::string full = dump(src, Text);
        const std::uint64_t n = dsim::fpick(30);
        bool fired = false;
        const int r = hc::with_alloc_fault(
            n,
            [&] {
                std::istringstream is(full);
                IA ia(is);
                ia >> dst;
            },
            &fired);
        if (r) {
            dsim::probe("load-failed-by-alloc");
            check_one(dst, mt, "target after running out of memory during a load");
            undump(full, dst, Text);
        }
        if (!r) check_one(dst, ms, "target after a successful load");
        dsim::event("load-alloc-fault", n, unsigned(r));
    }
    dsim::nontrivial();
}
// kernels: every failing operation leaves its target as it was, and a later one succeeds
void kernel_faults()
{
    const unsigned K = 3;
    std::vector<Ker> k(K);
    std::vector<KM> m(K);
    auto real = [&](unsigned i) { // something that can be saved
        do k[i] = make_kernel(m[i], 100000000u + i);
        while (m[i].p == "plain");
    };
    for (unsigned i = 0; i < K; ++i)
        if (chance(3, 4)) real(i);
    const unsigned n = range(1, 10);
    for (unsigned s = 0; s < n; ++s) {
        const unsigned a = pick(K), b = pick(K);
        const unsigned what = pick(7);
        const std::uint64_t at = dsim::fpick(what < 2 ? 8 : 30);
        int r = 0;
        KM want = m[b];
        const char *name = "";
        if (what == 0) {
            name = "copy assignment";
            r = hc::with_alloc_fault(at, [&] { k[a] = static_cast<const Ker &>(k[b]); });
        } else if (what == 1) {
            name = "copy construction";
            std::vector<Ker> hold;
            hold.reserve(1);
            r = hc::with_alloc_fault(at, [&] { hold.emplace_back(static_cast<const Ker &>(k[b])); });
            if (!r) check_kernel(hold[0], m[b], "the copy");
            want = m[a];
        } else if (what == 2) {
            name = "construction";
            KM mm;
            r = hc::with_alloc_fault(at, [&] { k[a] = make_kernel(mm, 200000000u + s); });
            want = mm;
            if (!r && mm.p == "plain") {
                k[a] = Ker();
                want = KM();
            }
        } else if (m[b].null) {
            continue;
        } else {
            const bool text = chance(1, 2);
            const std::string d = dump(k[b], text);
            if (what == 5) {
                name = "store";
                hc::FaultyBuf fb;
                fb.data.reserve(1u << 16);
                std::ostream os(&fb);
                r = store_fault(dsim::fchance(1, 2), [&] {
                    if (text) {
                        boost::archive::text_oarchive oa(os);
                        oa << k[b];
                    } else {
                        boost::archive::binary_oarchive oa(os);
                        oa << k[b];
                    }
                });
                if (!r && os.good()) DSIM_CHECK(fb.data == d, "silent-store-failure", "a store that failed half-way reported success");
                want = m[a];
            } else if (what == 6) {
                name = "load refused";
                g_refuse = int(dsim::fpick(2));
                try {
                    undump(d, k[a], text);
                } catch (...) {
                    r = 2;
                }
                g_refuse = -1;
                DSIM_CHECK(r, "silent-load-failure", "a function that could not be restored was loaded without an error");
            } else if (what == 3) {
                name = "load out of memory";
                r = hc::with_alloc_fault(at, [&] { undump(d, k[a], text); });
            } else {
                name = "short load";
                std::size_t maxcut = d.size();
                if (text) maxcut = d.find_last_of(' ', d.rfind(m[b].name) - 2) + 1; // a text archive does not check strings
                const std::size_t cut = dsim::fpick(unsigned(maxcut));
                try {
                    undump(d.substr(0, cut), k[a], text);
                } catch (...) {
                    r = 2;
                }
                dsim::fault_fired("load-short-read");
                DSIM_CHECK(r, "truncated-load-accepted", "a kernel was loaded from the first " + std::to_string(cut) + " of "
                                                             + std::to_string(d.size()) + " bytes");
            }
        }
        if (!r) m[a] = want;
        else dsim::probe("kernel-operation-failed");
        dsim::event(name, a, b, unsigned(r));
        const std::string ctx = std::string(r ? "failed " : "") + name;
        for (unsigned i = 0; i < K; ++i) check_kernel(k[i], m[i], ctx.c_str());
    }
    dsim::nontrivial();
}

// a set holds exactly the kernels put into it, in that order, and what it gives out is independent of it
using Set = dcgp::kernel_set<double>;
void check_set(const Set &s, const std::vector<std::string> &want, const std::string &ctx)
{
    const std::vector<Ker> ks = s();
    DSIM_CHECK(ks.size() == want.size(), "wrong-set",
               ctx + std::to_string(ks.size()) + " kernels, expected " + std::to_string(want.size()));
    std::ostringstream os;
    os << s;
    std::size_t at = 0;
    for (std::size_t i = 0; i < want.size(); ++i) {
        if (i < 5 && at != std::string::npos) { // only the first elements of a vector are printed
            at = os.str().find(want[i], at);
            DSIM_CHECK(at != std::string::npos, "wrong-set", ctx + "printed as " + os.str() + ", no " + want[i]);
            at += want[i].size();
        }
        for (int which = 0; which < 2; ++which) {
            const Ker k = which ? s[i] : ks[i];
            DSIM_CHECK(k.get_name() == want[i], "wrong-set", ctx + "kernel " + k.get_name() + " instead of " + want[i]);
            for (auto &spec : hc::kspecs())
                if (want[i] == spec.name) {
                    const std::vector<double> x{0.75, 0.5};
                    DSIM_CHECK(hc::close(k(x), spec.f(x), 1e-9), "wrong-set",
                               ctx + want[i] + " gives " + hc::str(k(x)) + " expected " + hc::str(spec.f(x)));
                }
            if (want[i].substr(0, 3) == "ker") {
                const KM m{double(want[i].size()), want[i], want[i], TS::basic, false};
                check_kernel(k, m, ctx.c_str());
            }
        }
    }
}
void kernel_sets()
{
    const unsigned K = 3;
    std::vector<Set> k(K);
    std::vector<std::vector<std::string>> m(K);
    auto known = [] { return std::string(hc::kspecs()[pick(unsigned(hc::kspecs().size()))].name); };
    auto unknown = [&] {
        switch (pick(4)) {
            case 0: return std::string();
            case 1: return known() + " ";
            case 2: return known().substr(1);
            default: return "Sum" + known();
        }
    };
    auto legal = [](const std::string &n) {
        for (auto &s : hc::kspecs())
            if (n == s.name) return true;
        return false;
    };
    const unsigned n = range(2, 14);
    for (unsigned s = 0; s < n; ++s) {
        const unsigned a = pick(K), b = pick(K);
        std::vector<std::string> want = m[a];
        const std::uint64_t at = dsim::fchance(1, 2) ? dsim::fpick(12) : 1000000;
        int r = 0; // as with_alloc_fault
        bool bad = false, strong = true;
        std::string name;
        switch (pick(8)) {
            case 0: {
                name = "construct";
                want.clear();
                for (unsigned i = range(0, 5); i--;) want.push_back(chance(1, 12) ? unknown() : known());
                for (auto &w : want) bad |= !legal(w);
                const std::vector<std::string> list = want;
                r = hc::with_alloc_fault(at, [&] { k[a] = Set(list); });
                strong = bad;
                break;
            }
            case 1:
            case 2: {
                name = "push_back(name)";
                const std::string nm = chance(1, 4) ? unknown() : known();
                bad = !legal(nm);
                want.push_back(nm);
                r = hc::with_alloc_fault(at, [&] { k[a].push_back(nm); });
                break;
            }
            case 3: {
                name = "push_back(kernel)";
                KF f;
                KP p;
                p.n = "ker" + std::string(pick(30), 'x');
                f.k = double(p.n.size());
                const Ker own(f, p, p.n);
                want.push_back(p.n);
                r = hc::with_alloc_fault(at, [&] { k[a].push_back(own); });
                break;
            }
            case 4:
                name = "clear";
                want.clear();
                k[a].clear();
                break;
            case 5:
                name = "copy";
                want = m[b];
                r = hc::with_alloc_fault(at, [&] { k[a] = static_cast<const Set &>(k[b]); });
                strong = false;
                break;
            case 6: {
                name = "given out";
                // what a set gives out can be changed without changing the set
                std::vector<Ker> out = k[a]();
                if (!out.empty()) out[0] = Ker();
                out.clear();
                if (!m[a].empty()) {
                    Ker one = k[a][pick(unsigned(m[a].size()))];
                    one = Ker();
                }
                break;
            }
            default: {
                name = "round trip";
                const bool text = chance(1, 2);
                const std::string d = dump(k[b], text);
                if (chance(1, 2)) {
                    Set fresh;
                    undump(d, fresh, text);
                    k[a] = std::move(fresh);
                } else
                    undump(d, k[a], text);
                want = m[b];
                dsim::probe("set-round-trip");
            }
        }
        if (bad && r != 1) DSIM_CHECK(r == 2, "wrong-set", name + ": an unknown kernel name was accepted");
        if (bad) dsim::probe("unknown-kernel-rejected");
        if (r == 1) dsim::probe("set-operation-failed");
        DSIM_CHECK(bad || r != 2, "wrong-set", name + " failed with a wrong exception");
        dsim::event(name.c_str(), a, b, unsigned(r));
        if (!r) m[a] = want;
        else if (!strong) { // a usable value
            k[a].clear();
            m[a].clear();
        }
        for (unsigned i = 0; i < K; ++i) check_set(k[i], m[i], (r ? "failed " : "") + name + ": ");
    }
    dsim::nontrivial();
}

} // namespace

DCGP_S11N_FUNCTION_EXPORT(h_pa, PA, int, int, const std::string &)
DCGP_S11N_FUNCTION_EXPORT(h_pb, PB, int, int, const std::string &)
DCGP_S11N_FUNCTION_EXPORT(h_plain, Plain, int, int, const std::string &)
DCGP_S11N_FUNCTION_EXPORT(h_kf, KF, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_EXPORT(h_kp, KP, std::string, const std::vector<std::string> &)

DSIM_SCENARIO(F01, wrapper_history, 4) { wrapper_history(false); }
DSIM_SCENARIO(F01, wrapper_history_faults, 6) { wrapper_history(true); }
DSIM_SCENARIO(F01, forwarding, 1) { forwarding(); }
DSIM_SCENARIO(F01, called_once, 1) { called_once(); }
DSIM_SCENARIO(F01, nested, 1) { nested(); }
DSIM_SCENARIO(F01, kernel_faults, 3) { kernel_faults(); }
DSIM_SCENARIO(F01, kernel_sets, 2) { kernel_sets(); }
DSIM_SCENARIO(C04, wrapper_concurrent, 2) { concurrent_wrapper(); }
DSIM_SCENARIO(C07, kernel_levels, 4) { levels_history(); }
DSIM_SCENARIO(C07, default_kernel, 1) { default_kernel_level(); }
DSIM_SCENARIO(S03, wrapper_text, 2) { failed_io<true>(); }
DSIM_SCENARIO(S03, wrapper_binary, 2) { failed_io<false>(); }
DSIM_SCENARIO(S03, kernel_faults, 2) { kernel_faults(); }
