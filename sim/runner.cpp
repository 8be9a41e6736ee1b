// dsim runner: forks one process per simulated run, searches over seeds, checks determinism,
// shrinks a failing run and writes / re-executes replay files. Compiled without -fsanitize.
#include "dsim_internal.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sched.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using namespace dsim;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using Clock = std::chrono::steady_clock;

namespace
{
struct Result {
    int status = 0;
    std::string cls, detail, scenario;
    u64 hash = 0, shash = 0, ms = 0; // ms: processor time, for the report only
};
struct Tapes {
    std::vector<u32> t[NSTREAMS];
};
std::string g_prop = "";

u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
u64 run_seed(u64 base, const std::string &prop, u64 idx)
{
    u64 h = mix(base);
    for (char c : prop) h = mix(h ^ u64(static_cast<unsigned char>(c)));
    return mix(h ^ mix(idx)) >> 4;
}
void reset_shared()
{
    g_sh->status = ST_NONE;
    g_sh->tape_overflow = 0;
    g_sh->cls[0] = g_sh->detail[0] = g_sh->scenario[0] = 0;
    g_sh->hash = g_sh->shash = g_sh->steps = g_sh->switches = g_sh->sim_ns = g_sh->entropy = 0;
    g_sh->threads = 0;
    g_sh->nontrivial = false;
    std::memset(g_sh->probes, 0, sizeof g_sh->probes);
    std::memset(g_sh->faults, 0, sizeof g_sh->faults);
    for (auto &t : g_sh->tape) t.len = 0;
}

Result run_once(u64 seed, const Tapes *tp, int trace_fd = 0)
{
    reset_shared();
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) {
        fprintf(stderr, "dsim: fork failed\n");
        exit(4);
    }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rlimit rl{20, 21};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit co{0, 0};
        setrlimit(RLIMIT_CORE, &co);
        rlimit as{u64(6) << 30, u64(6) << 30};
        setrlimit(RLIMIT_AS, &as);
        if (!getenv("DSIM_VERBOSE")) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
        }
        g_params.trace_fd = trace_fd;
        if (tp) {
            g_params.replay = true;
            for (unsigned i = 0; i < NSTREAMS; ++i) {
                g_params.in[i] = tp->t[i].data();
                g_params.in_len[i] = u32(tp->t[i].size());
            }
        }
        child_main(seed, g_prop.c_str());
    }
    int st = 0;
    rusage ru{};
    while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {
    }
    Result r;
    r.ms = u64(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + u64(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000;
    r.status = g_sh->status;
    r.cls = g_sh->cls;
    r.detail = g_sh->detail;
    r.scenario = g_sh->scenario;
    r.hash = g_sh->hash;
    r.shash = g_sh->shash;
    if (WIFSIGNALED(st)) {
        const int s = WTERMSIG(st);
        if (s == SIGKILL) {
            fprintf(stderr, "dsim: child killed (memory?)\n");
            exit(4);
        }
        r.status = ST_VIOLATION;
        r.cls = s == SIGXCPU ? "hang" : std::string("crash-") + (s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : std::to_string(s));
        r.detail = std::string("process died with signal ") + std::to_string(s);
        r.hash = r.shash = 0;
    } else if (r.status == ST_NONE) {
        r.status = ST_VIOLATION;
        r.cls = "exit";
        r.detail = "process exited with code " + std::to_string(WEXITSTATUS(st));
    }
    return r;
}
Tapes grab()
{
    Tapes t;
    for (unsigned i = 0; i < NSTREAMS; ++i)
        t.t[i].assign(g_sh->tape[i].v, g_sh->tape[i].v + std::min(g_sh->tape[i].len, TAPE_MAX));
    return t;
}
size_t weight(const Tapes &t)
{
    size_t n = 0;
    for (auto &v : t.t) n += v.size();
    return n;
}

struct Shrinker {
    Tapes best;
    std::string cls;
    std::string scenario;
    Clock::time_point until;
    unsigned tried = 0;
    bool time_left() const { return Clock::now() < until; }
    bool attempt(const Tapes &c)
    {
        if (!time_left()) return false;
        ++tried;
        Result r = run_once(0, &c);
        if (r.status == ST_VIOLATION && r.cls == cls && r.scenario == scenario) {
            best = c;
            return true;
        }
        return false;
    }
    void truncate(unsigned s)
    {
        size_t lo = s == OP ? 1 : 0, hi = best.t[s].size();
        while (lo < hi && time_left()) {
            const size_t mid = (lo + hi) / 2;
            Tapes c = best;
            c.t[s].resize(mid);
            if (attempt(c)) hi = mid;
            else lo = mid + 1;
        }
    }
    void chunks(unsigned s, bool zero)
    {
        const size_t start = s == OP ? 1 : 0;
        for (size_t k = std::max<size_t>(best.t[s].size() / 2, 1); k >= 1 && time_left(); k /= 2) {
            for (size_t i = start; i + k <= best.t[s].size() && time_left();) {
                Tapes c = best;
                bool changed = true;
                if (zero) {
                    changed = false;
                    for (size_t j = i; j < i + k; ++j) {
                        changed |= c.t[s][j] != 0;
                        c.t[s][j] = 0;
                    }
                } else
                    c.t[s].erase(c.t[s].begin() + long(i), c.t[s].begin() + long(i + k));
                if (changed && attempt(c) && !zero) continue;
                i += k;
            }
            if (k > 64 && best.t[s].size() > 20000) k = k / 2;
        }
    }
    void values(unsigned s)
    {
        for (size_t i = s == OP ? 1 : 0; i < best.t[s].size() && time_left(); ++i) {
            u32 v = best.t[s][i];
            if (!v) continue;
            u32 lo = 0;
            // try small values, then bisect downwards
            for (u32 cand : {1u, v / 2, v - 1}) {
                if (cand >= v || cand < lo) continue;
                Tapes c = best;
                c.t[s][i] = cand;
                if (attempt(c)) {
                    v = cand;
                    if (!v) break;
                }
            }
        }
    }
    void go()
    {
        size_t last;
        do {
            last = weight(best) * 1000;
            for (auto &t : best.t)
                for (u32 v : t) last += v != 0;
            for (unsigned s : {unsigned(FAULT), unsigned(ENTROPY), unsigned(SCHED), unsigned(OP)}) {
                truncate(s);
                chunks(s, false);
                chunks(s, true);
            }
            for (unsigned s : {unsigned(SCHED), unsigned(FAULT), unsigned(OP)}) values(s);
            size_t now = weight(best) * 1000;
            for (auto &t : best.t)
                for (u32 v : t) now += v != 0;
            if (now >= last) break;
        } while (time_left());
    }
};

std::string esc(const std::string &s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (static_cast<unsigned char>(c) < 0x20)
            o += ' ';
        else
            o += c;
    }
    return o;
}
const char *SN[] = {"OP", "SCHED", "FAULT", "ENTROPY"};

void write_replay(const std::string &path, const std::string &harness, const Result &r, u64 seed, const Tapes &t,
                  size_t orig)
{
    const std::string tr = path + ".trace.tmp";
    int fd = open(tr.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    run_once(0, &t, fd);
    close(fd);
    std::ofstream f(path);
    f << "dsim-replay 1\nproperty " << g_prop << "\nharness " << harness << "\nscenario " << r.scenario << "\nseed "
      << seed << "\nclass " << r.cls << "\ndetail " << esc(r.detail) << "\nhash " << r.hash << " " << r.shash
      << "\nshrunk-from " << orig << " choices\n";
    for (unsigned i = 0; i < NSTREAMS; ++i) {
        f << "tape " << SN[i] << " " << t.t[i].size();
        for (u32 v : t.t[i]) f << " " << v;
        f << "\n";
    }
    f << "trace\n";
    std::ifstream in(tr);
    std::string line;
    size_t n = 0;
    while (std::getline(in, line) && n++ < 4000) f << line << "\n";
    in.close();
    unlink(tr.c_str());
}

bool read_replay(const std::string &path, Tapes &t, Result &r, u64 &seed)
{
    std::ifstream f(path);
    std::string line;
    if (!std::getline(f, line) || line != "dsim-replay 1") return false;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "trace") break;
        if (k == "property") is >> g_prop;
        else if (k == "scenario") is >> r.scenario;
        else if (k == "seed") is >> seed;
        else if (k == "class") is >> r.cls;
        else if (k == "hash") is >> r.hash >> r.shash;
        else if (k == "tape") {
            std::string nm;
            size_t n;
            is >> nm >> n;
            for (unsigned i = 0; i < NSTREAMS; ++i)
                if (nm == SN[i]) {
                    t.t[i].resize(n);
                    for (auto &v : t.t[i]) is >> v;
                }
        }
    }
    return !g_prop.empty();
}
} // namespace

int main(int argc, char **argv)
{
    // no address-space randomisation: addresses, hence hash-table layouts, repeat across processes
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("DSIM_REEXEC")) {
        if (personality(ADDR_NO_RANDOMIZE) >= 0) {
            setenv("DSIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::map<std::string, std::string> o;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto get = [&](const char *k, const char *d) { return o.count(k) ? o[k] : std::string(d); };
    g_sh = static_cast<Shared *>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    const int cpu = atoi(get("--cpu", "-1").c_str());
    if (cpu >= 0) {
        cpu_set_t s;
        CPU_ZERO(&s);
        CPU_SET(cpu, &s);
        sched_setaffinity(0, sizeof s, &s);
    }
    g_prop = get("--prop", "");
    const std::string harness = get("--harness", "?");
    const u64 base = strtoull(get("--seed", "1").c_str(), nullptr, 10);

    if (mode == "list") {
        unsigned n;
        const Scenario *s = scenarios(n);
        for (unsigned i = 0; i < n; ++i) printf("%s %s %u\n", s[i].property, s[i].name, s[i].weight);
        return 0;
    }
    if (mode == "one") { // a single run by index, traced to stdout
        const u64 idx = strtoull(get("--index", "0").c_str(), nullptr, 10);
        for (u64 k = strtoull(get("--warm", "0").c_str(), nullptr, 10); k-- > 0;) run_once(run_seed(base, g_prop, idx), nullptr);
        const int fd = o.count("--trace") ? dup(1) : 0;
        Result r = run_once(run_seed(base, g_prop, idx), nullptr, fd);
        printf("status=%d class=%s scenario=%s hash=%llx shash=%llx steps=%llu switches=%llu threads=%u detail=%s\n", r.status,
               r.cls.c_str(), r.scenario.c_str(), (unsigned long long)r.hash, (unsigned long long)r.shash,
               (unsigned long long)g_sh->steps, (unsigned long long)g_sh->switches, g_sh->threads, r.detail.c_str());
        return r.status == ST_OK ? 0 : 1;
    }
    if (mode == "replay") {
        Tapes t;
        Result want;
        u64 seed = 0;
        if (!read_replay(get("--file", ""), t, want, seed)) {
            fprintf(stderr, "dsim: cannot read replay file\n");
            return 2;
        }
        Result r = run_once(0, &t, o.count("--trace") ? dup(1) : 0);
        const bool same = r.status == ST_VIOLATION && r.cls == want.cls && r.scenario == want.scenario
                          && r.hash == want.hash && r.shash == want.shash;
        printf("%s class=%s scenario=%s hash=%llu %llu detail=%s\n",
               same ? "REPRODUCED" : r.status == ST_VIOLATION ? "DIFFERENT-VIOLATION" : "NO-VIOLATION", r.cls.c_str(),
               r.scenario.c_str(), (unsigned long long)r.hash, (unsigned long long)r.shash, r.detail.c_str());
        return same ? 1 : r.status == ST_VIOLATION ? 5 : 0;
    }
    if (mode == "verify") { // re-execute (index, hash, shash) triples in this fresh process
        std::ifstream f(get("--file", ""));
        u64 idx, h, sh;
        int st;
        unsigned n = 0, bad = 0;
        const double tl = atof(get("--time", "20").c_str());
        const auto t0 = Clock::now();
        while (f >> idx >> st >> h >> sh) {
            if (std::chrono::duration<double>(Clock::now() - t0).count() > tl) break;
            Result r = run_once(run_seed(base, g_prop, idx), nullptr);
            ++n;
            if (r.status != st || r.hash != h || r.shash != sh) {
                ++bad;
                fprintf(stderr, "dsim: run %llu diverged in a fresh process\n", (unsigned long long)idx);
            }
        }
        printf("{\"verified\": %u, \"diverged\": %u}\n", n, bad);
        return bad ? 3 : 0;
    }
    if (mode != "run") {
        fprintf(stderr, "usage: run|replay|verify|one|list\n");
        return 2;
    }
    const u64 start = strtoull(get("--start", "0").c_str(), nullptr, 10);
    const u64 stride = strtoull(get("--stride", "1").c_str(), nullptr, 10);
    const u64 maxruns = strtoull(get("--runs", "1000000000").c_str(), nullptr, 10);
    const double tlim = atof(get("--time", "10").c_str());
    const double shrink_t = atof(get("--shrink-time", "40").c_str());
    const u64 recheck = strtoull(get("--recheck", "25").c_str(), nullptr, 10);
    const std::string out = get("--out", "/tmp/dsim");
    std::set<std::string> known;
    {
        std::istringstream is(get("--known", ""));
        std::string k;
        while (std::getline(is, k, ',')) known.insert(k);
    }
    const auto t0 = Clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(Clock::now() - t0).count(); };
    u64 runs = 0, nontriv = 0, steps = 0, switches = 0, simns = 0, rechecked = 0, maxsteps = 0, maxms = 0, maxthreads = 0, multi = 0, budget = 0;
    std::map<std::string, u64> probes, faults, fault_runs, knownhits, knownidx;
    std::map<std::string, std::string> knowndetail;
    std::unordered_set<u64> inter, states;
    std::ofstream vf(out + ".verify");
    std::string violation = "";
    int rc = 0, unrepeated = 0;
    for (u64 i = 0; i < maxruns && elapsed() < tlim; ++i) {
        const u64 idx = start + i * stride;
        const u64 seed = run_seed(base, g_prop, idx);
        Result r = run_once(seed, nullptr);
        ++runs;
        nontriv += g_sh->nontrivial;
        steps += g_sh->steps;
        switches += g_sh->switches;
        simns += g_sh->sim_ns;
        maxsteps = std::max<u64>(maxsteps, g_sh->steps);
        maxms = std::max(maxms, r.ms);
        maxthreads = std::max<u64>(maxthreads, g_sh->threads);
        multi += g_sh->threads > 1;
        for (auto &c : g_sh->probes) {
            if (!c.name[0]) break;
            probes[c.name] += c.n;
        }
        for (auto &c : g_sh->faults) {
            if (!c.name[0]) break;
            faults[c.name] += c.n;
            fault_runs[c.name]++;
        }
        if (r.status == ST_BUDGET) ++budget;
        if (r.status == ST_OK && inter.size() < 4000000) {
            if (g_sh->nontrivial) {
                inter.insert(r.shash);
                states.insert(r.hash);
            }
        }
        const bool again = recheck && (i % recheck) == recheck - 1;
        if (again) {
            vf << idx << " " << r.status << " " << r.hash << " " << r.shash << "\n";
            Result q = run_once(seed, nullptr, getenv("DSIM_TRACE2") ? dup(1) : 0);
            ++rechecked;
            if (q.status != r.status || q.hash != r.hash || q.shash != r.shash || q.cls != r.cls) {
                fprintf(stderr, "dsim: NONDETERMINISM prop=%s index=%llu\n", g_prop.c_str(), (unsigned long long)idx);
                rc = 3; // an error, unless a violation that does repeat turns up
                if (++unrepeated >= 20) break;
                if (r.status != ST_VIOLATION) continue;
            }
        }
        if (r.status != ST_VIOLATION) continue;
        const std::string key = r.scenario + "/" + r.cls;
        if (known.count(key)) {
            knownhits[key]++;
            if (!knownidx.count(key)) {
                knownidx[key] = idx;
                knowndetail[key] = r.detail;
            }
            continue;
        }
        // re-run, record the tapes, gate
        Result a = run_once(seed, nullptr);
        Tapes t = grab();
        const bool overflow = g_sh->tape_overflow;
        if (a.status != r.status || a.cls != r.cls || a.hash != r.hash) {
            fprintf(stderr, "dsim: NONDETERMINISM (violation %s did not repeat) prop=%s index=%llu\n", r.cls.c_str(),
                    g_prop.c_str(), (unsigned long long)idx);
            rc = 3; // an error, unless a violation that does repeat turns up
            if (++unrepeated < 20) continue;
            break;
        }
        Shrinker sh;
        sh.best = t;
        sh.cls = r.cls;
        sh.scenario = r.scenario;
        sh.until = Clock::now() + std::chrono::milliseconds(long(shrink_t * 1000));
        Result b = run_once(0, &t);
        if (overflow || b.status != r.status || b.cls != r.cls || b.hash != r.hash) {
            fprintf(stderr, "dsim: tape replay mismatch%s prop=%s index=%llu\n", overflow ? " (overflow)" : "",
                    g_prop.c_str(), (unsigned long long)idx);
            rc = 3;
            if (++unrepeated < 20) continue;
            break;
        }
        const bool hang = r.cls == "hang"; // every execution takes the whole time limit: not minimised
        Result fin = b;
        if (!hang) {
            sh.go();
            fin = run_once(0, &sh.best);
            Tapes used = grab(); // normalise: exactly the choices the minimised run consumed
            Result chk = run_once(0, &used);
            if (chk.status == fin.status && chk.cls == fin.cls && chk.hash == fin.hash) sh.best = used;
        }
        while (!sh.best.t[SCHED].empty() && sh.best.t[SCHED].back() == 0) sh.best.t[SCHED].pop_back();
        while (!sh.best.t[FAULT].empty() && sh.best.t[FAULT].back() == 0) sh.best.t[FAULT].pop_back();
        while (!sh.best.t[ENTROPY].empty() && sh.best.t[ENTROPY].back() == 0) sh.best.t[ENTROPY].pop_back();
        while (sh.best.t[OP].size() > 1 && sh.best.t[OP].back() == 0) sh.best.t[OP].pop_back();
        if (!hang) fin = run_once(0, &sh.best);
        violation = out + ".replay";
        write_replay(violation, harness, fin, seed, sh.best, weight(t));
        std::ofstream vj(out + ".violation.json");
        vj << "{\"index\": " << idx << ", \"seed\": " << seed << ", \"class\": \"" << esc(fin.cls) << "\", \"scenario\": \""
           << esc(fin.scenario) << "\", \"detail\": \"" << esc(fin.detail) << "\", \"choices\": " << weight(sh.best)
           << ", \"from\": " << weight(t) << ", \"attempts\": " << sh.tried << "}\n";
        rc = 1;
        break;
    }
    vf.close();
    {
        std::ofstream f(out + ".inter", std::ios::binary);
        for (u64 v : inter) f.write(reinterpret_cast<const char *>(&v), 8);
        std::ofstream g2(out + ".states", std::ios::binary);
        for (u64 v : states) g2.write(reinterpret_cast<const char *>(&v), 8);
    }
    std::ofstream j(out + ".json");
    auto dump = [&](const char *k, const std::map<std::string, u64> &m) {
        j << ", \"" << k << "\": {";
        bool first = true;
        for (auto &p : m) {
            j << (first ? "" : ", ") << "\"" << esc(p.first) << "\": " << p.second;
            first = false;
        }
        j << "}";
    };
    j << "{\"runs\": " << runs << ", \"nontrivial\": " << nontriv << ", \"steps\": " << steps << ", \"switches\": " << switches
      << ", \"sim_ns\": " << simns << ", \"rechecked\": " << rechecked << ", \"max_steps\": " << maxsteps
      << ", \"max_run_cpu_ms\": " << maxms << ", \"max_threads\": " << maxthreads << ", \"multi\": " << multi << ", \"budget\": " << budget << ", \"wall\": " << elapsed();
    dump("probes", probes);
    dump("faults", faults);
    dump("fault_runs", fault_runs);
    dump("known_hits", knownhits);
    dump("known_index", knownidx);
    j << ", \"rc\": " << rc << "}\n";
    return rc;
}
