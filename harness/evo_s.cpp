// S02 (crash and restart of an evolutionary run), S01 (round trip of the algorithms)
#include "evo.hpp"

namespace
{
struct crash {
};
// calls f with the algorithm inside
template <typename F>
void inside(pagmo::algorithm &a, F &&f)
{
    if (auto p = a.extract<dcgp::es4cgp>()) return f(*p);
    if (auto p = a.extract<dcgp::mes4cgp>()) return f(*p);
    if (auto p = a.extract<dcgp::moes4cgp>()) return f(*p);
    if (auto p = a.extract<dcgp::momes4cgp>()) return f(*p);
    if (auto p = a.extract<dcgp::gd4cgp>()) return f(*p);
    dsim::violation("restart-differs", "the algorithm came back as another type");
}
// The state of a long run: everything a user saves. The algorithm is saved in its pagmo wrapper, or (direct) by itself;
// then it is loaded into an object of its own type.
struct State {
    unsigned step = 0;
    pagmo::algorithm algo;
    pagmo::population pop;
    bool direct = false;
    template <typename Ar>
    void transfer(Ar &ar)
    {
        ar & step;
        if (direct) inside(algo, [&](auto &a) { ar & a; });
        else ar & algo;
        ar & pop;
    }
};
pagmo::algorithm make_algo(const Cfg &c)
{
    return with_algo(c, [](const auto &a) { return pagmo::algorithm(a); });
}
bool finite(const State &s)
{
    for (auto &f : s.pop.get_f())
        for (double v : f)
            if (!std::isfinite(v)) return false;
    for (auto &x : s.pop.get_x())
        for (double v : x)
            if (!std::isfinite(v)) return false;
    return true;
}
const char MAGIC[] = "complete";
// writes a checkpoint to storage that takes `limit` bytes; false when the storage failed
bool save(const State &s, bool text, hc::FaultyBuf &fb)
{
    std::ostream os(&fb);
    try {
        if (text) {
            boost::archive::text_oarchive oa(os);
            const_cast<State &>(s).transfer(oa);
        } else {
            boost::archive::binary_oarchive oa(os);
            const_cast<State &>(s).transfer(oa);
        }
        os.write(MAGIC, sizeof MAGIC);
        os.flush();
        return os.good();
    } catch (const std::bad_alloc &) {
        throw;
    } catch (const std::exception &) {
        return false;
    }
}
// false when the checkpoint is found to be incomplete
bool load(State &s, bool text, hc::FaultyBuf &fb)
{
    fb.rpos = 0;
    std::istream is(&fb);
    try {
        if (text) {
            boost::archive::text_iarchive ia(is);
            s.transfer(ia);
        } else {
            boost::archive::binary_iarchive ia(is);
            s.transfer(ia);
        }
        return true;
    } catch (const std::exception &) {
        return false;
    }
}
Log algo_log(const pagmo::algorithm &a)
{
    if (auto p = a.extract<dcgp::es4cgp>()) return read_log(*p);
    if (auto p = a.extract<dcgp::mes4cgp>()) return read_log(*p);
    if (auto p = a.extract<dcgp::moes4cgp>()) return read_log(*p);
    if (auto p = a.extract<dcgp::momes4cgp>()) return read_log(*p);
    if (auto p = a.extract<dcgp::gd4cgp>()) return read_log(*p);
    dsim::violation("restart-differs", "the algorithm came back as another type");
}
PRef problem_for(Cfg &c, bool picky = false)
{
    PRef q = rnd_problem(c, picky ? 2 : pick(2));
    if (picky) q.r.limit = 1e300;
    if (chance(1, 3)) {
        q.r.has_pc = true;
        q.r.pc.a = double(range(1, 3));
        q.pclevel = 1;
    }
    if (c.batch()) c.bfe = q.level() > 0 ? int(pick(5)) : chance(1, 2) ? int(ORDER_BFE) : int(NOBFE);
    if (c.kind == GD && chance(1, 2)) {
        static const char *pol[] = {"best", "worst", "random", "0", "1"};
        c.sel = pol[pick(5)];
        c.rep = pol[pick(5)];
    }
    return q;
}
// an algorithm of the same type that has been used for something else
pagmo::algorithm used_algo(int kind)
{
    Cfg d = rnd_cfg(kind, 2);
    d.verb = pick(3);
    PRef o = problem_for(d);
    pagmo::algorithm b = make_algo(d);
    pagmo::population pb(pagmo::problem(o.build()), 2u, 1u);
    b.evolve(pb);
    return b;
}
Out out(const State &s)
{
    Out o = snapshot(s.pop);
    o.log = algo_log(s.algo);
    return o;
}
void restart()
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    dsim::set_workers(range(1, 3));
    Cfg c = rnd_cfg(int(pick(5)), 2);
    PRef q = problem_for(c, chance(1, 5));
    const unsigned K = range(1, 4), every = range(1, 2);
    const unsigned np = range(2, 4), ps = pick(1000);
    const bool direct = chance(1, 2);
    State first;
    Out want;
    std::string fin;
    {
        dsim::Quiet quiet;
        State s;
        try {
            first.algo = make_algo(c);
            first.direct = direct;
            first.pop = pagmo::population(pagmo::problem(q.build()), np, ps);
            s = first;
            for (; s.step < K; ++s.step) s.pop = s.algo.evolve(s.pop);
        } catch (const bad_point &) { // the run itself fails on its data: nothing to restart
            dsim::probe("failed-reference-run");
            return;
        }
        want = out(s);
        fin = hc::dump(s.pop, false) + hc::dump(s.algo, false);
    }
    const bool text = chance(1, 4) && finite(first);
    // the disk: complete checkpoints, in order of writing
    std::vector<hc::FaultyBuf *> disk;
    std::vector<std::unique_ptr<hc::FaultyBuf>> keep;
    auto put = [&](std::unique_ptr<hc::FaultyBuf> f) {
        keep.push_back(std::move(f));
        disk.push_back(keep.back().get());
    };
    auto write = [&](const State &s) { // to a temporary file that becomes the checkpoint when it is complete
        auto f = std::make_unique<hc::FaultyBuf>();
        const unsigned what = dsim::fpick(6);
        bool tripped = false;
        if (what == 1 || what == 2) {
            // how large would it be
            hc::FaultyBuf whole;
            {
                dsim::Quiet quiet;
                save(s, text, whole);
            }
            f->limit = dsim::fpick(unsigned(whole.data.size()));
            tripped = true;
        }
        const bool ok = save(s, text, *f);
        DSIM_CHECK(ok != tripped, "save-error-lost", "storage accepted " + std::to_string(f->data.size()) + " bytes of a checkpoint and "
                                                         + (ok ? "no error was reported" : "an error was reported"));
        if (tripped) {
            dsim::fault_fired(what == 1 ? "disk-full" : "crash-in-save");
            if (what == 2) throw crash{};
            return;
        }
        if (what == 3) { // the machine dies before all of it has reached the platter
            const std::size_t n = f->data.size() - sizeof MAGIC;
            f->data.resize(dsim::fchance(1, 2) ? n - 1 - dsim::fpick(unsigned(std::min<std::size_t>(64, n - 1)))
                                               : dsim::fpick(unsigned(n)));
            put(std::move(f));
            dsim::fault_fired("torn-checkpoint");
            throw crash{};
        }
        put(std::move(f));
    };
    {
        auto f = std::make_unique<hc::FaultyBuf>();
        save(first, text && finite(first), *f);
        put(std::move(f));
    }
    State s(first);
    unsigned crashes = 0;
    const bool reuse = chance(1, 2);
    auto recover = [&] {
        ++crashes;
        dsim::Atomic at;
        dcgp::random_device::set_seed(pick(100)); // another process has another library-wide source
        const bool other = chance(1, 2);
        if (!reuse) {
            s = State{};
            if (direct) s.algo = make_algo(rnd_cfg(c.kind, 2));
        } else {
            dsim::probe("restart-into-used-objects");
            if (direct && other) {
                dsim::Quiet quiet;
                s.algo = used_algo(c.kind);
            }
        }
        s.direct = direct;
        while (true) {
            DSIM_CHECK(!disk.empty(), "checkpoint-lost", "no checkpoint can be loaded");
            hc::FaultyBuf &f = *disk.back();
            const bool complete = f.data.size() > sizeof MAGIC
                                  && std::memcmp(f.data.data() + f.data.size() - sizeof MAGIC, MAGIC, sizeof MAGIC) == 0;
            if (!complete && text) { // the last number of a text archive may be cut: only the end mark tells
                disk.pop_back();
                continue;
            }
            const bool ok = load(s, text, f);
            dsim::event("load", f.data.size(), ok);
            DSIM_CHECK(ok || !complete, "checkpoint-lost", "a complete checkpoint cannot be loaded");
            DSIM_CHECK(!ok || complete, "torn-checkpoint-accepted",
                       "a checkpoint of which only " + std::to_string(f.data.size()) + " bytes were written was loaded");
            if (ok) break;
            disk.pop_back();
        }
        dsim::probe("restarts");
    };
    while (s.step < K) {
        try {
            const bool may = crashes < 4;
            const unsigned what = may ? dsim::fpick(7) : 0;
            if (what == 1) {
                dsim::fault_fired("crash-before-step");
                throw crash{};
            }
            if (what == 2) { // killed in the middle of a step: what was computed is lost
                dsim::arm_alloc_fault(dsim::fpick(3000));
                bool died = false;
                try {
                    s.pop = s.algo.evolve(s.pop);
                } catch (const std::bad_alloc &) {
                    died = true;
                }
                dsim::disarm_alloc_fault();
                dsim::fault_fired(died ? "crash-in-step" : "crash-after-step");
                throw crash{};
            }
            s.pop = s.algo.evolve(s.pop);
            ++s.step;
            if (what == 3) {
                dsim::fault_fired("crash-after-step");
                throw crash{};
            }
            if (s.step % every == 0 && may && (!text || finite(s))) write(s);
        } catch (const crash &) {
            recover();
        }
    }
    const Out got = out(s);
    dsim::event("restarted", got.f.empty() ? 0 : dsim::bits(got.f[0][0]), crashes, s.step);
    const std::string e = diff(want, got);
    DSIM_CHECK(e.empty(), "restart-differs", c.str() + " [" + q.str() + "]: " + e);
    if (!text) {
        dsim::Quiet quiet;
        DSIM_CHECK(hc::dump(s.pop, false) + hc::dump(s.algo, false) == fin, "restart-differs",
                   c.str() + " [" + q.str() + "]: the final states save differently");
    }
    if (crashes) dsim::nontrivial();
}
// an algorithm comes back from an archive as it was
void round_trip()
{
    dsim::configure_schedule();
    dsim::set_step_cap(1000000000);
    Cfg c = rnd_cfg(int(pick(5)), 3);
    PRef q = problem_for(c);
    pagmo::population pop(pagmo::problem(q.build()), range(2, 4), pick(1000));
    pagmo::algorithm a = make_algo(c);
    if (chance(1, 2)) pop = a.evolve(pop);
    State st{0, a, pop, false};
    bool fin = finite(st);
    for (auto &l : algo_log(a))
        for (double v : l.first) fin &= std::isfinite(v);
    const bool text = fin && chance(1, 2);
    pagmo::algorithm b;
    pagmo::population pb;
    if (chance(1, 2)) { // into a used one
        Cfg d = rnd_cfg(chance(1, 2) ? c.kind : int(pick(5)), 2);
        PRef o = problem_for(d);
        pb = pagmo::population(pagmo::problem(o.build()), 2u, 1u);
        b = make_algo(d);
        pb = b.evolve(pb);
        dsim::probe("dirty-target");
    }
    if (chance(1, 2)) { // by itself
        dsim::probe("direct");
        b = chance(2, 3) ? used_algo(c.kind) : make_algo(rnd_cfg(c.kind, 2));
        inside(b, [&](auto &x) { hc::undump(hc::dump(*a.extract<std::decay_t<decltype(x)>>(), text), x, text); });
    } else
        hc::undump(hc::dump(a, text), b, text);
    hc::undump(hc::dump(pop, text), pb, text);
    const std::string w = c.str() + " [" + q.str() + "]: ";
    DSIM_CHECK(a.get_name() == b.get_name() && a.get_extra_info() == b.get_extra_info(), "round-trip",
               w + a.get_extra_info() + " came back as " + b.get_extra_info());
    DSIM_CHECK(same(algo_log(a), algo_log(b)), "round-trip", w + "the log");
    inside(b, [&](auto &x) {
        DSIM_CHECK(x.get_verbosity() == c.verb, "round-trip", w + "verbosity " + std::to_string(x.get_verbosity()));
        if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, dcgp::gd4cgp>)
            DSIM_CHECK(x.get_seed() == c.seed, "round-trip", w + "seed " + std::to_string(x.get_seed()));
    });
    if (auto g = a.extract<dcgp::gd4cgp>()) {
        auto h = b.extract<dcgp::gd4cgp>();
        auto show = [](const boost::any &v) {
            if (auto s = boost::any_cast<std::string>(&v)) return *s;
            return std::to_string(boost::any_cast<pagmo::population::size_type>(v));
        };
        DSIM_CHECK(show(g->get_selection()) == show(h->get_selection()) && show(g->get_replacement()) == show(h->get_replacement()),
                   "round-trip", w + "policies " + show(g->get_selection()) + "/" + show(g->get_replacement()) + " came back as "
                                     + show(h->get_selection()) + "/" + show(h->get_replacement()));
    }
    State x{0, a, pop, false}, y{0, b, pb, false};
    for (unsigned i = 0, n = range(1, 2); i < n; ++i) {
        x.pop = x.algo.evolve(x.pop);
        y.pop = y.algo.evolve(y.pop);
        const std::string e = diff(out(x), out(y));
        DSIM_CHECK(e.empty(), "round-trip", w + "evolves differently: " + e);
    }
    dsim::event("round-trip", unsigned(c.kind), text);
    dsim::nontrivial();
}
} // namespace

DSIM_SCENARIO(S02, restart, 1) { restart(); }
DSIM_SCENARIO(S01, algorithm_round_trip, 2) { round_trip(); }
