// dsim runtime. Compiled WITHOUT -fsanitize=thread. See dsim.hpp.
#include "dsim.hpp"
#include "dsim_internal.hpp"

#include <link.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <mm_malloc.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

namespace dsim
{
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

Shared *g_sh = nullptr; // shared with the parent process
Params g_params;

namespace
{
constexpr unsigned MAXT = 40;

struct VC {
    u32 c[MAXT];
    void clear() { std::memset(c, 0, sizeof c); }
    void join(const VC &o)
    {
        for (unsigned i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

enum class St : u8 { Runnable, Blocked, Done };

struct Thread {
    int id = -1;
    St st = St::Runnable;
    int quiet = 0;   // >0: no points, no race detection, no faults
    int atomic_ = 0; // >0: no points
    int nofault = 0; // >0: its allocations do not fail
    u32 fut = 0;     // baton
    VC vc;
    VC fence_rel; // pending release fence
    const void *chan = nullptr; // what it is blocked on
    u64 deadline = 0;           // 0 = none
    bool timed_out = false;
    u64 ticket = 0;    // FIFO order in the channel
    u32 prio = 0;
    u64 last_run = 0;
    // pthread
    pthread_t pt{};
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    bool detached = false;
    // tbb
    int slot = -1;
    void *tbb_ctx = nullptr;
    bool is_worker = false;
};

// --------------------------------------------------------------------------------------------
// small open-addressing maps on mmap'd memory (no allocator reentrancy)
template <typename V>
struct AMap {
    struct E {
        u64 k;
        V v;
    };
    E *e = nullptr;
    u64 cap = 0, n = 0;
    static u64 h(u64 x)
    {
        x ^= x >> 31;
        x *= 0x9E3779B97F4A7C15ull;
        return x ^ (x >> 29);
    }
    void init(u64 c)
    {
        cap = c;
        e = static_cast<E *>(
            mmap(nullptr, cap * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        n = 0;
    }
    V *find(u64 k)
    {
        for (u64 i = h(k) & (cap - 1);; i = (i + 1) & (cap - 1)) {
            if (e[i].k == k) return &e[i].v;
            if (e[i].k == 0) return nullptr;
        }
    }
    V *get(u64 k)
    {
        for (u64 i = h(k) & (cap - 1);; i = (i + 1) & (cap - 1)) {
            if (e[i].k == k) return &e[i].v;
            if (e[i].k == 0) {
                if (n * 4 > cap * 3) grow();
                else {
                    e[i].k = k;
                    ++n;
                    return &e[i].v;
                }
                i = h(k) & (cap - 1);
                i = (i - 1) & (cap - 1);
            }
        }
    }
    void grow()
    {
        E *o = e;
        u64 oc = cap;
        init(cap * 2);
        for (u64 i = 0; i < oc; ++i)
            if (o[i].k) *get(o[i].k) = o[i].v;
        munmap(o, oc * sizeof(E));
    }
};

struct Rec {
    u32 clk;
    u32 pc;
    u8 tid;
    u8 mask;
    u8 fl; // 1 write, 2 atomic
    u8 used;
};
struct Cell {
    Rec r[4];
    u8 rr;
};
struct CRef { // shadow of 512 bytes of memory
    Cell *p;
    u64 sync; // a synchronisation object lives here
};
struct MutexState {
    int owner; // 0 none, tid+1
    int count;
    int readers;
    u8 init;
};

struct G {
    bool active = false;
    Thread *cur = nullptr;
    Thread th[MAXT];
    int nth = 0;
    int nrun = 0;
    i64 gap = 1;
    u64 steps = 0;
    u64 seq = 0;
    u64 switches = 0;
    u64 now = 0;
    u64 ticket = 0;
    u64 cap = 200000000;
    u64 asteps = 0, acap = 1000000000; // in sections that run alone
    u64 since_switch = 0;
    u64 hash = 1469598103934665603ull;
    u64 shash = 1469598103934665603ull;
    // strategy
    int strat = 0;
    u32 mean = 50;
    int syncw = 1;
    int changes = 0;
    int victim = -1;
    u64 victim_until = 0;
    bool stall_seen = false;
    u32 lowprio = 1000000;
    bool fair = false;
    // tbb
    unsigned workers = 0;
    // faults
    bool alloc_armed = false, alloc_sticky = false, alloc_fired = false;
    u64 alloc_left = 0, allocs = 0;
    bool entropy_fault = false;
    u64 entropy_n = 0;
    // maps
    AMap<CRef> shadow;
    Cell *arena = nullptr;
    u64 arena_left = 0;
    AMap<VC> sync;
    AMap<MutexState> mtx;
    VC fence;
    bool nontriv = false;
    bool rare_used = false;
    bool multi = false; // more than one thread was ever created
} g;

__thread Thread *self __attribute__((tls_model("initial-exec"))) = nullptr;

// --------------------------------------------------------------------------------------------
// PRNG: splitmix-seeded xoshiro per stream
struct Rng {
    u64 s[4];
    static u64 sm(u64 &x)
    {
        u64 z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void seed(u64 x)
    {
        for (auto &v : s) v = sm(x);
    }
    u64 next()
    {
        auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        const u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
} rng[NSTREAMS];

void hmix(u64 &h, u64 v)
{
    for (int i = 0; i < 8; ++i) {
        h ^= (v >> (8 * i)) & 0xff;
        h *= 1099511628211ull;
    }
}

// --------------------------------------------------------------------------------------------
void trace(const char *fmt, ...)
{
    if (!g_params.trace_fd) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > int(sizeof buf) - 1) n = int(sizeof buf) - 1;
    if (n > 0) {
        ssize_t w = write(g_params.trace_fd, buf, size_t(n));
        (void)w;
    }
}

void finish_counts()
{
    g_sh->hash = g.hash;
    g_sh->shash = g.shash;
    g_sh->steps = g.steps;
    g_sh->switches = g.switches;
    g_sh->sim_ns = g.now + g.steps * 50;
    g_sh->threads = u32(g.nth);
    g_sh->nontrivial = g.nontriv;
    g_sh->entropy = g.entropy_n;
}

[[noreturn]] void die(int status, const char *cls, const char *detail)
{
    if (self) self->quiet++;
    g.active = false;
    finish_counts();
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    snprintf(g_sh->detail, sizeof g_sh->detail, "%s", detail);
    trace("VERDICT %s: %s\n", cls, detail);
    __atomic_store_n(&g_sh->status, status, __ATOMIC_SEQ_CST);
    _exit(0);
}

long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
void fut_wait(u32 *w)
{
    while (__atomic_exchange_n(w, 0, __ATOMIC_ACQUIRE) == 0)
        raw_syscall(SYS_futex, long(w), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
void fut_post(u32 *w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, long(w), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// --------------------------------------------------------------------------------------------
// scheduler
void give(Thread *n, u32 pc)
{
    Thread *me = g.cur;
    if (n == me) return;
    g.switches++;
    g.since_switch = 0;
    hmix(g.shash, (u64(me->id) << 40) ^ (u64(n->id) << 32) ^ pc);
    hmix(g.hash, (u64(me->id) << 8) ^ u64(n->id));
    trace("%llu switch t%d->t%d pc=0x%x\n", (unsigned long long)g.steps, me->id, n->id, pc);
    n->last_run = g.steps;
    g.cur = n;
    fut_post(&n->fut);
    if (me->st == St::Done) return;
    fut_wait(&me->fut);
}

void draw_gap()
{
    switch (g.strat) {
        case 0: // run to block
            g.gap = i64(1) << 60;
            break;
        case 1: // random
        case 3: // stall
            g.gap = 1 + i64(draw(SCHED, 2 * g.mean));
            break;
        case 2: // PCT
            if (g.changes > 0) {
                --g.changes;
                g.gap = 1 + i64(draw(SCHED, 2 * g.mean));
            } else
                g.gap = i64(1) << 60;
            break;
        case 4: // round robin with small quantum
            g.gap = g.mean;
            break;
    }
    if (g.fair && g.gap > 200) g.gap = 200;
}

Thread *runnable_nth(unsigned k, Thread *excl)
{
    for (int i = 0; i < g.nth; ++i) {
        Thread *t = &g.th[i];
        if (t->st == St::Runnable && t != excl) {
            if (k == 0) return t;
            --k;
        }
    }
    return nullptr;
}
unsigned count_runnable(Thread *excl)
{
    unsigned k = 0;
    for (int i = 0; i < g.nth; ++i)
        if (g.th[i].st == St::Runnable && &g.th[i] != excl) ++k;
    return k;
}

// choose among runnable threads; excl (may be null) is not eligible
Thread *choose(Thread *excl)
{
    Thread *stalled = nullptr;
    if (g.strat == 3 && !g.fair && g.victim >= 0 && g.victim < g.nth && g.steps < g.victim_until) {
        stalled = &g.th[g.victim];
    }
    if (g.strat == 2 && !g.fair) {
        Thread *best = nullptr;
        for (int i = 0; i < g.nth; ++i) {
            Thread *t = &g.th[i];
            if (t->st != St::Runnable || t == excl) continue;
            if (!best || t->prio > best->prio) best = t;
        }
        return best;
    }
    if (g.strat == 4 || g.fair) {
        const int base = g.cur ? g.cur->id : 0;
        for (int d = 1; d <= g.nth; ++d) {
            Thread *t = &g.th[(base + d) % g.nth];
            if (t->st == St::Runnable && t != excl) return t;
        }
        return nullptr;
    }
    // candidate list, current thread first so that tape value 0 means "keep running"
    Thread *c[MAXT];
    unsigned n = 0;
    if (g.cur && g.cur->st == St::Runnable && g.cur != excl && g.cur != stalled) c[n++] = g.cur;
    for (int i = 0; i < g.nth; ++i) {
        Thread *t = &g.th[i];
        if (t->st == St::Runnable && t != excl && t != g.cur && t != stalled) c[n++] = t;
    }
    if (n == 0 && stalled && stalled->st == St::Runnable && stalled != excl) return stalled;
    if (n && stalled && stalled->st == St::Runnable && stalled != excl && !g.stall_seen) {
        g.stall_seen = true;
        fault_fired("stalled-thread");
    }
    if (n == 0) return nullptr;
    if (n == 1) return c[0];
    return c[draw(SCHED, n)];
}

void check_cap()
{
    if (g.steps > g.cap / 2 && !g.fair) g.fair = true;
    if (g.steps > g.cap) die(ST_VIOLATION, "no-progress", "step cap exceeded under a fair schedule");
}

void point_slow(u32 pc, bool is_yield)
{
    Thread *me = g.cur;
    g.seq++;
    check_cap();
    if (is_yield && g.strat == 2) me->prio = --g.lowprio;
    if (!is_yield && g.strat == 2) me->prio = --g.lowprio; // change point
    Thread *n = choose(is_yield ? me : nullptr);
    if (!n) n = me;
    if (!is_yield || g.strat != 2) draw_gap();
    else if (g.gap <= 0) g.gap = i64(1) << 60;
    if (n != me) give(n, pc);
}

inline void point(Thread *t, int w, u32 pc)
{
    if (t->atomic_) {
        if ((++g.asteps & 0xffff) == 0 && g.asteps > g.acap) die(ST_VIOLATION, "no-progress", "a section that runs alone does not end");
        return;
    }
    ++g.steps;
    if (g.nrun <= 1) {
        if ((g.steps & 0xfff) == 0) check_cap();
        return;
    }
    g.since_switch++;
    if ((g.gap -= w) > 0 && g.since_switch < 20000) return;
    point_slow(pc, false);
}

void deadlock()
{
    char b[800];
    int n = snprintf(b, sizeof b, "no runnable thread:");
    for (int i = 0; i < g.nth && n < 700; ++i)
        n += snprintf(b + n, sizeof b - size_t(n), " t%d=%s", i,
                      g.th[i].st == St::Done ? "done" : g.th[i].is_worker ? "idle-worker" : "blocked");
    die(ST_VIOLATION, "deadlock", b);
}

// current thread becomes blocked and another one runs; returns when woken
void block(const void *chan, u64 deadline, u32 pc)
{
    Thread *me = g.cur;
    me->chan = chan;
    me->deadline = deadline;
    me->timed_out = false;
    me->ticket = ++g.ticket;
    me->st = St::Blocked;
    g.nrun--;
    ++g.steps;
    g.seq++;
    check_cap();
    Thread *n = choose(me);
    while (!n) {
        // nothing runnable: advance simulated time to the next deadline
        Thread *best = nullptr;
        for (int i = 0; i < g.nth; ++i) {
            Thread *t = &g.th[i];
            if (t->st == St::Blocked && t->deadline && (!best || t->deadline < best->deadline)) best = t;
        }
        if (!best) deadlock();
        const u64 nowv = g.now + g.steps * 50;
        if (best->deadline > nowv) g.now += best->deadline - nowv;
        best->timed_out = true;
        best->st = St::Runnable;
        best->chan = nullptr;
        best->deadline = 0;
        g.nrun++;
        n = best;
    }
    if (n == me) { // timed out immediately
        return;
    }
    draw_gap();
    give(n, pc);
}
void make_runnable(Thread *t)
{
    if (t->st != St::Blocked) return;
    t->st = St::Runnable;
    t->chan = nullptr;
    t->deadline = 0;
    g.nrun++;
    if (g.nrun == 2) draw_gap();
}
unsigned wake_all(const void *chan)
{
    unsigned k = 0;
    for (int i = 0; i < g.nth; ++i)
        if (g.th[i].st == St::Blocked && g.th[i].chan == chan) {
            make_runnable(&g.th[i]);
            ++k;
        }
    return k;
}
// wakes one waiter, chosen by the scheduler
Thread *wake_one(const void *chan)
{
    Thread *c[MAXT];
    unsigned n = 0;
    for (int i = 0; i < g.nth; ++i)
        if (g.th[i].st == St::Blocked && g.th[i].chan == chan) c[n++] = &g.th[i];
    if (!n) return nullptr;
    Thread *t = n == 1 ? c[0] : c[draw(SCHED, n)];
    make_runnable(t);
    return t;
}

// --------------------------------------------------------------------------------------------
// happens-before
VC *svc(const void *p)
{
    g.shadow.get((u64(p) >> 9) + 1)->sync = 1;
    return g.sync.get(u64(p) | (u64(1) << 62));
}
Cell *new_chunk()
{
    if (g.arena_left < 64) {
        constexpr u64 n = 64 * 32;
        g.arena = static_cast<Cell *>(mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE,
                                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_POPULATE, -1, 0));
        g.arena_left = n;
    }
    Cell *c = g.arena;
    g.arena += 64;
    g.arena_left -= 64;
    return c;
}
inline Cell *cell(u64 gran)
{
    CRef *r = g.shadow.get((gran >> 6) + 1);
    if (!r->p) r->p = new_chunk();
    return r->p + (gran & 63);
}
void hb_release(Thread *t, const void *p)
{
    if (!g.multi) return;
    svc(p)->join(t->vc);
    t->vc.c[t->id]++;
}
void hb_acquire(Thread *t, const void *p)
{
    if (!g.multi) return;
    VC *v = g.sync.find(u64(p) | (u64(1) << 62));
    if (v) t->vc.join(*v);
}

bool (*g_excuse)() = nullptr;
void race(u64 addr, const Rec &r, Thread *t, bool write, bool at, u32 pc)
{
    if (g_excuse) {
        ++t->quiet;
        const bool ok = g_excuse();
        --t->quiet;
        if (ok) { // an ordering the instrumentation cannot see
            for (int i = 0; i < g.nth; ++i) t->vc.join(g.th[i].vc);
            return;
        }
    }
    char b[300];
    snprintf(b, sizeof b, "t%d %s%s pc=0x%x vs earlier t%d %s%s pc=0x%x (unordered) addr-off=%u", t->id,
             at ? "atomic " : "", write ? "write" : "read", pc, r.tid, (r.fl & 2) ? "atomic " : "",
             (r.fl & 1) ? "write" : "read", r.pc, unsigned(addr & 7));
    die(ST_VIOLATION, "data-race", b);
}

inline void access_granule(Thread *t, u64 gaddr, u8 mask, bool write, bool at, u32 pc)
{
    Cell *c = cell(gaddr);
    const u8 fl = u8((write ? 1 : 0) | (at ? 2 : 0));
    Rec *slot = nullptr;
    for (auto &r : c->r) {
        if (!r.used) {
            if (!slot) slot = &r;
            continue;
        }
        if (r.tid == t->id) {
            if (r.mask == mask && r.fl == fl) slot = &r;
            continue;
        }
        if ((r.mask & mask) && (write || (r.fl & 1)) && !((r.fl & 2) && at) && r.clk > t->vc.c[r.tid]) {
            race(gaddr << 3, r, t, write, at, pc);
        }
    }
    if (!slot) {
        for (auto &r : c->r)
            if (r.tid == t->id || r.clk <= t->vc.c[r.tid]) {
                slot = &r;
                break;
            }
    }
    if (!slot) slot = &c->r[c->rr++ & 3];
    slot->clk = t->vc.c[t->id];
    slot->pc = pc;
    slot->tid = u8(t->id);
    slot->mask = mask;
    slot->fl = fl;
    slot->used = 1;
}
// --------------------------------------------------------------------------------------------
// simulated heap: addresses are a function of the run alone (code may compare them), released blocks are poisoned and
// reused late, and every instrumented access is checked against the live blocks
namespace heap
{
constexpr u64 BASE = 0x200000000000ull, SIZE = u64(3) << 30, SHADOW = 0x210000000000ull;
constexpr u32 LIVE = 0x4c495645u, FREED = 0x46524545u;
struct Hdr {
    u32 magic, cls, off, size;
};
static_assert(sizeof(Hdr) == 16, "");
struct FreeHdr {
    u32 magic, cls;
    u64 next;
};
constexpr unsigned NCLS = 128 + 2 * 40;
struct Q {
    u64 head, tail, n;
};
Q q[NCLS];
u64 top = 0;
bool ready = false;
inline u8 *sh(u64 a) { return reinterpret_cast<u8 *>(SHADOW + ((a - BASE) >> 4)); }
inline bool in(const void *p) { return u64(p) - BASE < SIZE; }
void init()
{
    void *a = mmap(reinterpret_cast<void *>(BASE), SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *b = mmap(reinterpret_cast<void *>(SHADOW), SIZE >> 4, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (u64(a) != BASE || u64(b) != SHADOW) _exit(9);
    ready = true;
}
inline u64 class_of(u64 total, u64 &rounded)
{
    if (total <= 2032) {
        rounded = (total + 15) & ~u64(15);
        return rounded >> 4;
    }
    unsigned c = 128;
    for (u64 z = 2048;; z <<= 1, c += 2) {
        if (total <= z) {
            rounded = z;
            return c;
        }
        if (total <= z + z / 2) {
            rounded = z + z / 2;
            return c + 1;
        }
    }
}
void *alloc(u64 n, u64 al)
{
    if (n > (u64(1) << 30) || al > 4096) return nullptr;
    const u64 extra = al > 16 ? al : 0;
    u64 rounded = 0;
    const u64 c = class_of(16 + n + 8 + extra, rounded);
    u64 b;
    if (q[c].n > 12) {
        b = q[c].head;
        q[c].head = reinterpret_cast<FreeHdr *>(b)->next;
        q[c].n--;
    } else {
        if (top + rounded > SIZE) return nullptr;
        b = BASE + top;
        top += rounded;
    }
    u64 u = b + 16;
    if (extra) u = (u + al - 1) & ~(al - 1);
    if (u != b + 16) *reinterpret_cast<FreeHdr *>(b) = {FREED, u32(c), 0};
    *reinterpret_cast<Hdr *>(u - 16) = {LIVE, u32(c), u32(u - b - 16), u32(n)};
    std::memset(sh(u), 16, n >> 4);
    if (n & 15) *sh(u + n) = u8(n & 15);
    std::memset(reinterpret_cast<void *>(u + n), 0xFB, 8);
    return reinterpret_cast<void *>(u);
}
[[noreturn]] void bad(const char *cls, const void *p, u64 size, u32 pc)
{
    char b[200];
    snprintf(b, sizeof b, "t%d block-offset=%llu size=%llu pc=0x%x", self ? self->id : -1,
             (unsigned long long)(u64(p) - BASE), (unsigned long long)size, pc);
    if (self) self->quiet++;
    die(ST_VIOLATION, cls, b);
}
void release(void *p, u32 pc)
{
    Hdr *h = reinterpret_cast<Hdr *>(u64(p) - 16);
    if ((u64(p) & 15) || h->magic != LIVE) bad(h->magic == FREED ? "double-free" : "invalid-free", p, 0, pc);
    const u64 n = h->size;
    for (unsigned i = 0; i < 8; ++i)
        if (static_cast<u8 *>(p)[n + i] != 0xFB) bad("out-of-bounds-write", p, n, pc);
    std::memset(sh(u64(p)), 0xFF, (n + 15) >> 4);
    std::memset(p, 0xDD, n < 4096 ? n : 4096);
    const u32 c = h->cls;
    const u64 b = u64(p) - 16 - h->off;
    h->magic = FREED;
    *reinterpret_cast<FreeHdr *>(b) = {FREED, c, 0};
    if (q[c].n) reinterpret_cast<FreeHdr *>(q[c].tail)->next = b;
    else q[c].head = b;
    q[c].tail = b;
    q[c].n++;
}
[[noreturn]] __attribute__((noinline)) void report(const void *p, size_t size, u8 s, u32 pc)
{
    bad(s == 0xFF ? "use-after-free" : "out-of-bounds", p, size, pc);
}
inline void check(const void *p, size_t size, u32 pc)
{
    if (!in(p) || !size) return;
    const u64 a = u64(p), e = a + size - 1;
    for (u64 x = a & ~u64(15); x <= e; x += 16) {
        const u8 s = *sh(x);
        if (s == 16) continue;
        if (s == 0xFF || s == 0 || (e < x + 16 ? e - x : 15) >= s) report(p, size, s, pc);
    }
}
} // namespace heap
void access(Thread *t, const void *p, size_t size, bool write, bool at, u32 pc)
{
    heap::check(p, size, pc);
    if (!g.multi) return;
    u64 a = u64(p), e = a + size;
    while (a < e) {
        const u64 ga = a >> 3;
        const u64 ge = (ga + 1) << 3;
        const u64 x = e < ge ? e : ge;
        const u8 mask = u8(((1u << (x - (ga << 3))) - 1u) & ~((1u << (a & 7)) - 1u));
        access_granule(t, ga, mask, write, at, pc);
        a = x;
    }
}
void forget(const void *p, size_t size)
{
    if (!g.multi || !p) return;
    const u64 a = u64(p) >> 3, e = (u64(p) + size + 7) >> 3;
    for (u64 i = a; i < e;) {
        const u64 ce = ((i >> 6) + 1) << 6;
        const u64 x = e < ce ? e : ce;
        CRef *r = g.shadow.find((i >> 6) + 1);
        if (r) {
            if (r->p) std::memset(r->p + (i & 63), 0, (x - i) * sizeof(Cell));
            if (r->sync)
                for (u64 k = i; k < x; ++k) {
                    for (u64 o = 0; o < 8; o += 4) {
                        VC *v = g.sync.find(((k << 3) + o) | (u64(1) << 62));
                        if (v) v->clear();
                    }
                }
        }
        i = x;
    }
}

// --------------------------------------------------------------------------------------------
// threads
Thread *new_thread()
{
    if (g.nth >= int(MAXT)) die(ST_BUDGET, "too-many-threads", "");
    Thread *t = &g.th[g.nth];
    t->id = g.nth;
    ++g.nth;
    t->vc.clear();
    if (g.cur) {
        g.multi = true;
        t->vc = g.cur->vc;
        g.cur->vc.c[g.cur->id]++;
    }
    t->vc.c[t->id] = 1;
    t->fence_rel.clear();
    t->st = St::Runnable;
    t->prio = g.strat == 2 ? 1000000u + draw(SCHED, 1000) : 0;
    g.nrun++;
    if (g.nrun == 2) draw_gap();
    return t;
}

void thread_exit(Thread *t)
{
    t->quiet++;
    t->st = St::Done;
    g.nrun--;
    svc(&t->fut)->join(t->vc);
    wake_all(&t->st);
    Thread *n = choose(t);
    while (!n) {
        Thread *best = nullptr;
        for (int i = 0; i < g.nth; ++i) {
            Thread *x = &g.th[i];
            if (x->st == St::Blocked && x->deadline && (!best || x->deadline < best->deadline)) best = x;
        }
        if (!best) deadlock();
        const u64 nowv = g.now + g.steps * 50;
        if (best->deadline > nowv) g.now += best->deadline - nowv;
        best->timed_out = true;
        make_runnable(best);
        n = best;
    }
    draw_gap();
    give(n, 0);
}

void *tramp(void *p)
{
    Thread *t = static_cast<Thread *>(p);
    self = t;
    t->quiet++;
    fut_wait(&t->fut);
    { // the system may hand out the stack of a thread that has ended
        pthread_attr_t at;
        void *lo = nullptr;
        size_t sz = 0;
        if (!pthread_getattr_np(pthread_self(), &at)) {
            pthread_attr_getstack(&at, &lo, &sz);
            pthread_attr_destroy(&at);
            forget(lo, sz);
        }
    }
    t->quiet--;
    t->ret = t->fn(t->arg);
    thread_exit(t);
    self = nullptr;
    return t->ret;
}

template <typename F>
F real(const char *name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

Thread *spawn_thread(void *(*fn)(void *), void *arg)
{
    static auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    Thread *t = new_thread();
    t->fn = fn;
    t->arg = arg;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1u << 20);
    int r = rc(&t->pt, &at, tramp, t);
    pthread_attr_destroy(&at);
    if (r) die(ST_BUDGET, "pthread_create-failed", "");
    return t;
}

inline bool simmed() { return self && g.active && !self->quiet; }
inline bool simmed_q() { return self && g.active; }
} // namespace

// --------------------------------------------------------------------------------------------
// public API
u32 draw(Stream s, u32 n)
{
    if (n <= 1) return 0;
    u32 v;
    Tape &t = g_sh->tape[s];
    if (g_params.replay) {
        v = g_params.pos[s] < g_params.in_len[s] ? g_params.in[s][g_params.pos[s]] % n : 0;
        g_params.pos[s]++;
    } else {
        v = u32((unsigned __int128)(rng[s].next()) * n >> 64);
    }
    if (t.len < TAPE_MAX) t.v[t.len] = v;
    else g_sh->tape_overflow = 1;
    t.len++;
    return v;
}

void violation(const char *cls, const std::string &detail) { die(ST_VIOLATION, cls, detail.c_str()); }
void event(const char *tag, u64 a, u64 b, u64 c)
{
    for (const char *p = tag; *p; ++p) hmix(g.hash, u64(u8(*p)));
    hmix(g.hash, a);
    hmix(g.hash, b);
    hmix(g.hash, c);
    ++g.seq;
    if (g_params.trace_fd) {
        if (self) self->quiet++;
        trace("%llu t%d %s %llu %llu %llu\n", (unsigned long long)g.steps, self ? self->id : -1, tag,
              (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
        if (self) self->quiet--;
    }
}
void note(const std::string &text)
{
    if (g_params.trace_fd) trace("%llu t%d # %s\n", (unsigned long long)g.steps, self ? self->id : -1, text.c_str());
}
bool tracing() { return g_params.trace_fd != 0; }
static void bump(Counter *tab, const char *name, u64 n)
{
    for (unsigned i = 0; i < NCOUNTERS; ++i) {
        if (!tab[i].name[0]) snprintf(tab[i].name, sizeof tab[i].name, "%s", name);
        if (!std::strcmp(tab[i].name, name)) {
            tab[i].n += n;
            return;
        }
    }
}
void probe(const char *name, u64 n) { bump(g_sh->probes, name, n); }
void fault_fired(const char *name, u64 n)
{
    bump(g_sh->faults, name, n);
    trace("%llu t%d FAULT %s\n", (unsigned long long)g.steps, self ? self->id : -1, name);
}
void nontrivial() { g.nontriv = true; }
bool rare(std::uint32_t den)
{
    if (g.rare_used) return false;
    return g.rare_used = chance(1, den);
}
u64 seq() { return ++g.seq; }
u64 steps() { return g.steps; }

Quiet::Quiet()
{
    if (self) self->quiet++;
}
Quiet::~Quiet()
{
    if (self) self->quiet--;
}
Atomic::Atomic()
{
    if (self) self->atomic_++;
}
Atomic::~Atomic()
{
    if (self) self->atomic_--;
}

void configure_schedule()
{
    // strategy mix; tape value 0 = run-to-block, the simplest
    static const int strat[] = {0, 1, 1, 1, 1, 2, 2, 3, 4};
    static const u32 means[] = {2, 4, 8, 16, 40, 100, 300, 1000, 4000};
    static const int sw[] = {1, 1, 5, 25, 100};
    g.strat = strat[draw(SCHED, 9)];
    g.mean = means[draw(SCHED, 9)];
    g.syncw = sw[draw(SCHED, 5)];
    g.changes = int(draw(SCHED, 5));
    if (g.strat == 2) g.mean *= 10;
    if (g.strat == 3) {
        g.victim = int(draw(SCHED, 6));
        g.victim_until = 2000 + 2000ull * draw(SCHED, 100);
    }
    if (g.strat == 4) g.mean = 1 + g.mean / 4;
    static const char *names[] = {"sched:run-to-block", "sched:random", "sched:pct", "sched:stall", "sched:round-robin"};
    probe(names[g.strat]);
    draw_gap();
}
void set_workers(unsigned w) { g.workers = w > 15 ? 15 : w; }
unsigned workers() { return g.workers; }
void set_race_excuse(bool (*f)()) { g_excuse = f; }
void set_step_cap(u64 c) { g.cap = c; }

void yield_point()
{
    if (simmed()) point(self, 1, 0);
}

void arm_alloc_fault(u64 n, bool sticky)
{
    g.alloc_armed = true;
    g.alloc_left = n;
    g.alloc_sticky = sticky;
    g.alloc_fired = false;
}
bool disarm_alloc_fault()
{
    g.alloc_armed = false;
    return g.alloc_fired;
}
bool AllocFaultScope::fired() const { return g.alloc_fired; }
u64 alloc_count() { return g.allocs; }
void arm_entropy_fault(bool on) { g.entropy_fault = on; }
u64 entropy_draws() { return g.entropy_n; }

static Scenario g_scn[256];
static unsigned g_nscn = 0;
Register::Register(const char *p, const char *n, unsigned w, void (*fn)()) { g_scn[g_nscn++] = Scenario{p, n, w, fn}; }
const Scenario *scenarios(unsigned &n)
{
    n = g_nscn;
    return g_scn;
}

void run_threads(const std::vector<std::function<void()>> &bodies)
{
    std::vector<std::thread> th;
    if (self) self->nofault++; // an allocation failing here would be the harness's own
    th.reserve(bodies.size());
    for (const auto &b : bodies) th.emplace_back(b);
    if (self) self->nofault--;
    for (auto &t : th) t.join();
}

// --------------------------------------------------------------------------------------------
// run one scenario in this (forked) process; never returns
[[noreturn]] void child_main(u64 seed, const char *property)
{
    for (unsigned i = 0; i < NSTREAMS; ++i) rng[i].seed(seed * 4 + i + 0x1234567ull);
    g.shadow.init(1u << 12);
    g.sync.init(1u << 9);
    g.mtx.init(1u << 8);
    g.fence.clear();
    heap::init();
    Thread *t = new_thread();
    t->pt = pthread_self();
    g.cur = t;
    self = t;
    g.active = true;
    std::set_terminate([]() {
        if (self) self->quiet++;
        std::string w = "std::terminate";
        if (std::current_exception()) {
            try {
                throw;
            } catch (const std::exception &e) {
                w += std::string(" with exception: ") + e.what();
            } catch (...) {
                w += " with exception of unknown type";
            }
        }
        die(ST_VIOLATION, "terminate", w.c_str());
    });
    // pick scenario
    unsigned tot = 0;
    for (unsigned i = 0; i < g_nscn; ++i)
        if (!std::strcmp(g_scn[i].property, property)) tot += g_scn[i].weight;
    u32 k = draw(OP, tot);
    const Scenario *s = nullptr;
    for (unsigned i = 0; i < g_nscn; ++i) {
        if (std::strcmp(g_scn[i].property, property)) continue;
        if (k < g_scn[i].weight) {
            s = &g_scn[i];
            break;
        }
        k -= g_scn[i].weight;
    }
    if (!s) _exit(3);
    probe((std::string("scenario:") + s->name).c_str());
    snprintf(g_sh->scenario, sizeof g_sh->scenario, "%s", s->name);
    trace("0 t0 scenario %s\n", s->name);
    configure_schedule();
    try {
        s->fn();
    } catch (const std::exception &e) {
        self->quiet++;
        die(ST_VIOLATION, "unexpected-exception", (std::string("escaped the scenario: ") + e.what()).c_str());
    } catch (...) {
        die(ST_VIOLATION, "unexpected-exception", "escaped the scenario");
    }
    die(ST_OK, "ok", "");
}
} // namespace dsim

using namespace dsim;

// ==============================================================================================
// TSan instrumentation entry points
// only addresses inside the (non-PIE) harness count: shared libraries may be mapped anywhere
static inline u32 norm_pc(void *p)
{
    const auto a = reinterpret_cast<std::uintptr_t>(p);
    return a < 0x10000000u ? u32(a) : 0u;
}
#define PC norm_pc(__builtin_return_address(0))
#define HOOK(p, n, w)                                                                                                  \
    do {                                                                                                               \
        Thread *t_ = self;                                                                                             \
        if (__builtin_expect(!t_ || t_->quiet || !g.active, 0)) break;                                                 \
        const u32 pc_ = PC;                                                                                            \
        point(t_, 1, pc_);                                                                                             \
        access(t_, p, n, w, false, pc_);                                                                               \
    } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { HOOK(p, n, false); }                                                                \
    void __tsan_write##n(void *p) { HOOK(p, n, true); }                                                                \
    void __tsan_unaligned_read##n(void *p) { HOOK(p, n, false); }                                                      \
    void __tsan_unaligned_write##n(void *p) { HOOK(p, n, true); }                                                      \
    void __tsan_read_write##n(void *p) { HOOK(p, n, true); }                                                           \
    void __tsan_unaligned_read_write##n(void *p) { HOOK(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **p) { HOOK(p, 8, false); }
void __tsan_vptr_update(void **p, void *v)
{
    if (*p != v) HOOK(p, 8, true);
}
void __tsan_read_range(void *p, unsigned long n) { HOOK(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { HOOK(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    HOOK(s, n, false);
    HOOK(d, n, true);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    HOOK(s, n, false);
    HOOK(d, n, true);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    HOOK(d, n, true);
    return memset(d, c, n);
}
}
// atomics
namespace
{
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline void at_pre(const volatile void *p, size_t n, bool write, u32 pc)
{
    Thread *t = self;
    if (!t || t->quiet || !g.active) return;
    point(t, g.syncw, pc);
    access(t, const_cast<const void *>(p), n, write, true, pc);
}
inline void at_acq(const volatile void *p, int mo)
{
    Thread *t = self;
    if (!t || !g.active) return;
    if (acq(mo)) hb_acquire(t, const_cast<const void *>(p));
}
inline void at_rel(const volatile void *p, int mo)
{
    Thread *t = self;
    if (!t || !g.active) return;
    if (rel(mo)) hb_release(t, const_cast<const void *>(p));
}
} // namespace
#define ATOM(bits_, T)                                                                                                 \
    T __tsan_atomic##bits_##_load(const volatile T *p, int mo)                                                         \
    {                                                                                                                  \
        at_pre(p, sizeof(T), false, PC);                                                                               \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                    \
        at_acq(p, mo);                                                                                                 \
        return v;                                                                                                      \
    }                                                                                                                  \
    void __tsan_atomic##bits_##_store(volatile T *p, T v, int mo)                                                      \
    {                                                                                                                  \
        at_pre(p, sizeof(T), true, PC);                                                                                \
        at_rel(p, mo);                                                                                                 \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##bits_##_exchange(volatile T *p, T v, int mo)                                                      \
    {                                                                                                                  \
        at_pre(p, sizeof(T), true, PC);                                                                                \
        at_acq(p, mo);                                                                                                 \
        at_rel(p, mo);                                                                                                 \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##bits_##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int)                          \
    {                                                                                                                  \
        at_pre(p, sizeof(T), true, PC);                                                                                \
        at_acq(p, mo);                                                                                                 \
        at_rel(p, mo);                                                                                                 \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##bits_##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int)                            \
    {                                                                                                                  \
        at_pre(p, sizeof(T), true, PC);                                                                                \
        at_acq(p, mo);                                                                                                 \
        at_rel(p, mo);                                                                                                 \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    T __tsan_atomic##bits_##_compare_exchange_val(volatile T *p, T c, T v, int mo, int)                                \
    {                                                                                                                  \
        at_pre(p, sizeof(T), true, PC);                                                                                \
        at_acq(p, mo);                                                                                                 \
        at_rel(p, mo);                                                                                                 \
        __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return c;                                                                                                      \
    }
#define ATOMRMW(bits_, T, name, op)                                                                                    \
    T __tsan_atomic##bits_##_##name(volatile T *p, T v, int mo)                                                        \
    {                                                                                                                  \
        at_pre(p, sizeof(T), true, PC);                                                                                \
        at_acq(p, mo);                                                                                                 \
        at_rel(p, mo);                                                                                                 \
        return op(p, v, __ATOMIC_SEQ_CST);                                                                             \
    }
#define ATOMALL(b, T)                                                                                                  \
    ATOM(b, T)                                                                                                         \
    ATOMRMW(b, T, fetch_add, __atomic_fetch_add)                                                                       \
    ATOMRMW(b, T, fetch_sub, __atomic_fetch_sub)                                                                       \
    ATOMRMW(b, T, fetch_and, __atomic_fetch_and)                                                                       \
    ATOMRMW(b, T, fetch_or, __atomic_fetch_or)                                                                         \
    ATOMRMW(b, T, fetch_xor, __atomic_fetch_xor)                                                                       \
    ATOMRMW(b, T, fetch_nand, __atomic_fetch_nand)
extern "C" {
ATOMALL(8, u8)
ATOMALL(16, std::uint16_t)
ATOMALL(32, u32)
ATOMALL(64, u64)
void __tsan_atomic_thread_fence(int)
{
    Thread *t = self;
    if (!t || !g.active || !g.multi) return;
    t->vc.join(g.fence);
    g.fence.join(t->vc);
    t->vc.c[t->id]++;
}
void __tsan_atomic_signal_fence(int) {}
}

// ==============================================================================================
// synchronisation interposition
namespace
{
void mutex_lock(void *m, bool recursive, u32 pc)
{
    Thread *t = self;
    point(t, g.syncw, pc);
    MutexState *s = g.mtx.get(u64(m));
    if (s->owner == t->id + 1 && recursive) {
        s->count++;
        return;
    }
    while (s->owner || s->readers) {
        probe("lock-contended");
        block(m, 0, pc);
        s = g.mtx.get(u64(m));
    }
    s->owner = t->id + 1;
    s->count = 1;
    hb_acquire(t, m);
}
bool mutex_trylock(void *m, bool recursive, u32 pc)
{
    Thread *t = self;
    point(t, g.syncw, pc);
    MutexState *s = g.mtx.get(u64(m));
    if (s->owner == t->id + 1 && recursive) {
        s->count++;
        return true;
    }
    if (s->owner || s->readers) return false;
    s->owner = t->id + 1;
    s->count = 1;
    hb_acquire(t, m);
    return true;
}
void mutex_unlock(void *m, u32 pc, bool with_point = true)
{
    Thread *t = self;
    MutexState *s = g.mtx.get(u64(m));
    if (s->owner == t->id + 1) {
        if (--s->count > 0) return;
        hb_release(t, m);
        s->owner = 0;
        wake_all(m);
    } else if (s->readers > 0) {
        hb_release(t, m);
        if (--s->readers == 0) wake_all(m);
    } else {
        die(ST_VIOLATION, "bad-unlock", "unlock of a mutex not held by this thread");
    }
    if (with_point) point(t, g.syncw, pc);
}
bool is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
u64 sim_now() { return g.now + g.steps * 50; }
u64 ts2ns(const timespec *ts) { return u64(ts->tv_sec) * 1000000000ull + u64(ts->tv_nsec); }
constexpr u64 CLOCK_BASE = 1700000000ull * 1000000000ull;
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
        return f(m);
    }
    if (self->quiet) {
        // oracle code: uncontended by construction unless a simulated thread holds it
        MutexState *s = g.mtx.get(u64(m));
        if (s->owner && !(is_rec(m) && s->owner == self->id + 1)) mutex_lock(m, is_rec(m), PC);
        else {
            s->owner = self->id + 1;
            s->count++;
        }
        return 0;
    }
    mutex_lock(m, is_rec(m), PC);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
        return f(m);
    }
    return mutex_trylock(m, is_rec(m), PC) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
        return f(m);
    }
    mutex_unlock(m, PC, !self->quiet);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (simmed_q()) {
        MutexState *s = g.mtx.find(u64(m));
        if (s) std::memset(s, 0, sizeof *s);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_destroy");
    return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
        return f(m);
    }
    mutex_lock(m, false, PC);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
        return f(m);
    }
    return mutex_trylock(m, false, PC) ? 0 : EBUSY;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
        return f(m);
    }
    Thread *t = self;
    point(t, g.syncw, PC);
    MutexState *s = g.mtx.get(u64(m));
    while (s->owner) {
        block(m, 0, PC);
        s = g.mtx.get(u64(m));
    }
    s->readers++;
    hb_acquire(t, m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
        return f(m);
    }
    mutex_unlock(m, PC);
    return 0;
}
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline, u32 pc)
{
    Thread *t = self;
    point(t, g.syncw, pc);
    mutex_unlock(m, pc, false);
    block(c, deadline, pc);
    const bool to = t->timed_out;
    t->timed_out = false;
    hb_acquire(t, c);
    // reacquire
    MutexState *s = g.mtx.get(u64(m));
    while (s->owner) {
        block(m, 0, pc);
        s = g.mtx.get(u64(m));
    }
    s->owner = t->id + 1;
    s->count = 1;
    hb_acquire(t, m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
        return f(c, m);
    }
    return cond_wait_impl(c, m, 0, PC);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts)
{
    if (!simmed_q()) {
        static auto f
            = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait");
        return f(c, m, ts);
    }
    const u64 d = ts2ns(ts);
    return cond_wait_impl(c, m, d > CLOCK_BASE ? d - CLOCK_BASE : 1, PC);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *ts)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>(
            "pthread_cond_clockwait");
        return f(c, m, CLOCK_MONOTONIC, ts);
    }
    const u64 d = ts2ns(ts);
    return cond_wait_impl(c, m, d > CLOCK_BASE ? d - CLOCK_BASE : 1, PC);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
        return f(c);
    }
    hb_release(self, c);
    wake_one(c);
    if (!self->quiet) point(self, g.syncw, PC);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
        return f(c);
    }
    hb_release(self, c);
    wake_all(c);
    if (!self->quiet) point(self, g.syncw, PC);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_destroy");
        return f(c);
    }
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)())
{
    if (!simmed_q()) {
        static auto f = real<int (*)(pthread_once_t *, void (*)())>("pthread_once");
        return f(o, fn);
    }
    MutexState *s = g.mtx.get(u64(o));
    if (*o == 2) {
        hb_acquire(self, o);
        return 0;
    }
    while (s->owner) {
        block(o, 0, PC);
        s = g.mtx.get(u64(o));
    }
    if (*o == 2) {
        hb_acquire(self, o);
        return 0;
    }
    s->owner = self->id + 1;
    try {
        fn();
    } catch (...) {
        g.mtx.get(u64(o))->owner = 0;
        wake_all(o);
        throw;
    }
    *o = 2;
    g.mtx.get(u64(o))->owner = 0;
    hb_release(self, o);
    wake_all(o);
    return 0;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!simmed_q()) {
        static auto f
            = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
        return f(pt, a, fn, arg);
    }
    Thread *t = spawn_thread(fn, arg);
    *pt = t->pt;
    if (!self->quiet) point(self, g.syncw, PC);
    return 0;
}
int pthread_join(pthread_t pt, void **ret)
{
    static auto f = real<int (*)(pthread_t, void **)>("pthread_join");
    if (!simmed_q()) return f(pt, ret);
    Thread *t = nullptr;
    for (int i = 0; i < g.nth; ++i)
        if (g.th[i].pt == pt && !g.th[i].detached) t = &g.th[i];
    if (!t) return f(pt, ret);
    while (t->st != St::Done) block(&t->st, 0, PC);
    hb_acquire(self, &t->fut);
    t->detached = true; // do not match again
    return f(pt, ret);
}
int sched_yield()
{
    if (simmed() && !self->atomic_) {
        ++g.steps;
        if (g.nrun > 1) point_slow(PC, true);
        else check_cap();
        return 0;
    }
    return 0;
}
static void sim_sleep(u64 ns)
{
    ++g.steps;
    block(&self->deadline, sim_now() + ns + 1, 0);
}
int nanosleep(const timespec *ts, timespec *rem)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(const timespec *, timespec *)>("nanosleep");
        return f(ts, rem);
    }
    sim_sleep(ts2ns(ts));
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec *ts, timespec *rem)
{
    if (!simmed_q()) {
        static auto f = real<int (*)(clockid_t, int, const timespec *, timespec *)>("clock_nanosleep");
        return f(c, fl, ts, rem);
    }
    u64 ns = ts2ns(ts);
    if (fl & TIMER_ABSTIME) {
        const u64 n = CLOCK_BASE + sim_now();
        ns = ns > n ? ns - n : 0;
    }
    sim_sleep(ns);
    return 0;
}
int clock_gettime(clockid_t c, timespec *ts)
{
    if (!simmed_q()) return int(raw_syscall(SYS_clock_gettime, c, long(ts), 0, 0, 0, 0));
    const u64 n = CLOCK_BASE + sim_now();
    ts->tv_sec = time_t(n / 1000000000ull);
    ts->tv_nsec = long(n % 1000000000ull);
    return 0;
}
time_t time(time_t *p)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
// std::future / std::atomic_futex in libstdc++ reach the kernel through syscall(2)
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
         f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && simmed_q()) {
        const int op = int(b) & 0x7f;
        u32 *w = reinterpret_cast<u32 *>(a);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != u32(c)) {
                errno = EAGAIN;
                return -1;
            }
            u64 dl = 0;
            if (d) {
                u64 x = ts2ns(reinterpret_cast<const timespec *>(d));
                dl = op == FUTEX_WAIT ? sim_now() + x + 1 : (x > CLOCK_BASE ? x - CLOCK_BASE : 1);
            }
            block(w, dl, PC);
            hb_acquire(self, w);
            if (self->timed_out) {
                self->timed_out = false;
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            hb_release(self, w);
            return c >= 0x7fffffff ? long(wake_all(w)) : (wake_one(w) ? 1 : 0);
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = int(-r);
        return -1;
    }
    return r;
}
void __assert_fail(const char *ex, const char *file, unsigned line, const char *) noexcept
{
    char b[500];
    snprintf(b, sizeof b, "%s:%u: %s", file, line, ex);
    if (g.active) die(ST_VIOLATION, "assertion", b);
    write(2, b, strlen(b));
    _exit(134);
}
// function-local statics
int __cxa_guard_acquire(long long *gd)
{
    u8 *b = reinterpret_cast<u8 *>(gd);
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) {
        if (simmed_q()) hb_acquire(self, gd);
        return 0;
    }
    if (!simmed_q()) {
        b[1] = 1;
        return 1;
    }
    while (b[1]) {
        probe("static-init-contended");
        block(gd, 0, PC);
        if (b[0]) {
            hb_acquire(self, gd);
            return 0;
        }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long *gd)
{
    u8 *b = reinterpret_cast<u8 *>(gd);
    b[1] = 0;
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if (simmed_q()) {
        hb_release(self, gd);
        wake_all(gd);
    }
}
void __cxa_guard_abort(long long *gd)
{
    u8 *b = reinterpret_cast<u8 *>(gd);
    b[1] = 0;
    if (simmed_q()) wake_all(gd);
}
// --------------------------------------------------------------------------------------------
// allocator: junk-filled; the shadow of a block is cleared when it is handed out (it may have been released by code
// the simulator does not see, such as the destructors of thread-local objects)
static inline bool on_heap() { return g.active && heap::ready && self && self->st != St::Done; }
static void *get_mem(size_t n, size_t al)
{
    if (!on_heap()) return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
    void *p = heap::alloc(n, al);
    if (!p) return p;
    memset(p, 0xA5, n);
    if (g.multi) forget(p, n);
    return p;
}
static void put_mem(void *p, u32 pc)
{
    if (!p) return;
    if (!heap::in(p)) __libc_free(p);
    else if (on_heap()) heap::release(p, pc); // exiting threads run concurrently with the simulation: leaked
}
static size_t mem_size(void *p) { return heap::in(p) ? reinterpret_cast<heap::Hdr *>(u64(p) - 16)->size : malloc_usable_size(p); }
void *malloc(size_t n) noexcept { return get_mem(n, 0); }
void *calloc(size_t a, size_t b) noexcept
{
    if (!on_heap()) return __libc_calloc(a, b);
    if (b && a > (size_t(1) << 40) / b) return nullptr;
    void *p = get_mem(a * b, 0);
    if (p) memset(p, 0, a * b);
    return p;
}
void *realloc(void *p, size_t n) noexcept
{
    if (!p) return get_mem(n, 0);
    if (!on_heap() && !heap::in(p)) return __libc_realloc(p, n);
    void *q = get_mem(n, 0);
    if (!q) return nullptr;
    const size_t o = mem_size(p);
    memcpy(q, p, o < n ? o : n);
    put_mem(p, PC);
    return q;
}
void free(void *p) noexcept { put_mem(p, PC); }
void *memalign(size_t a, size_t n) noexcept { return get_mem(n, a); }
void *aligned_alloc(size_t a, size_t n) noexcept { return get_mem(n, a); }
int posix_memalign(void **p, size_t a, size_t n) noexcept
{
    *p = get_mem(n, a);
    return *p ? 0 : ENOMEM;
}
} // extern "C"

// pagmo allocates inside noexcept move constructors: a failure there would end the process whatever dcgp does
struct LibRange {
    uintptr_t lo = 0, hi = 0;
    LibRange()
    {
        dl_iterate_phdr(
            [](dl_phdr_info *i, size_t, void *self) {
                if (!i->dlpi_name || !strstr(i->dlpi_name, "libpagmo")) return 0;
                auto *r = static_cast<LibRange *>(self);
                for (int k = 0; k < i->dlpi_phnum; ++k)
                    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
                        r->lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                        r->hi = r->lo + i->dlpi_phdr[k].p_memsz;
                    }
                return 1;
            },
            this);
    }
};
static LibRange g_pagmo;
static void *new_impl(size_t n, size_t al, const void *caller)
{
    const uintptr_t at = reinterpret_cast<uintptr_t>(caller);
    if (simmed() && !(at >= g_pagmo.lo && at < g_pagmo.hi)) {
        g.allocs++;
        if (g.alloc_armed && !self->nofault) {
            if (g.alloc_left == 0) {
                if (!g.alloc_sticky) g.alloc_armed = false;
                if (!g.alloc_fired) fault_fired("alloc-failure");
                g.alloc_fired = true;
                throw std::bad_alloc();
            }
            g.alloc_left--;
        }
    }
    void *p = get_mem(n, al);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return new_impl(n, 0, __builtin_return_address(0)); }
void *operator new[](size_t n) { return new_impl(n, 0, __builtin_return_address(0)); }
void *operator new(size_t n, std::align_val_t a) { return new_impl(n, size_t(a), __builtin_return_address(0)); }
void *operator new[](size_t n, std::align_val_t a) { return new_impl(n, size_t(a), __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
    try {
        return new_impl(n, 0, __builtin_return_address(0));
    } catch (...) {
        return nullptr;
    }
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept
{
    try {
        return new_impl(n, 0, __builtin_return_address(0));
    } catch (...) {
        return nullptr;
    }
}
void operator delete(void *p) noexcept { put_mem(p, PC); }
void operator delete[](void *p) noexcept { put_mem(p, PC); }
void operator delete(void *p, size_t) noexcept { put_mem(p, PC); }
void operator delete[](void *p, size_t) noexcept { put_mem(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { put_mem(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { put_mem(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { put_mem(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { put_mem(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put_mem(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put_mem(p, PC); }

// --------------------------------------------------------------------------------------------
// entropy: std::random_device
namespace std
{
void __glibcxx_assert_fail(const char *file, int line, const char *, const char *cond) noexcept
{
    char b[500];
    snprintf(b, sizeof b, "%s:%d: %s", file ? file : "?", line, cond ? cond : "?");
    if (g.active) die(ST_VIOLATION, "assertion", b);
    abort();
}
void random_device::_M_init(const std::string &) {}
void random_device::_M_init_pretr1(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval()
{
    if (!simmed_q()) return 0x5eed5eedu;
    g.entropy_n++;
    if (g.entropy_fault) {
        dsim::fault_fired("entropy-source-failure");
        throw std::runtime_error("random_device could not be read");
    }
    u32 hi = draw(ENTROPY, 65536), lo = draw(ENTROPY, 65536);
    return (hi << 16) | lo;
}
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32.; }
} // namespace std

// ==============================================================================================
// simulated oneTBB runtime (tbb::detail::r1 entry points). Headers are the real oneTBB ones.
#include <oneapi/tbb/cache_aligned_allocator.h>
#include <oneapi/tbb/global_control.h>
#include <oneapi/tbb/parallel_for.h>
#include <oneapi/tbb/task_arena.h>
#include <oneapi/tbb/task_group.h>
#include <exception>
#include <map>
#include <deque>

namespace
{
namespace td = tbb::detail::d1;
struct TaskE {
    td::task *t;
    td::task_group_context *ctx;
    unsigned short orig, aff;
    VC vc;
};
struct CtxState {
    td::task_group_context *parent = nullptr;
    bool bound = false;
    bool cancelled = false;
    std::exception_ptr ex;
};
constexpr int MAXSLOT = 40;
struct TBB {
    std::deque<TaskE> q[MAXSLOT];
    std::map<const void *, CtxState> ctx;
    int nslots = 0;
    bool started = false;
    int idle_chan = 0;
    u64 tasks = 0, steals = 0;
};
TBB *tb = nullptr;
TBB &T()
{
    if (!tb) tb = new TBB();
    return *tb;
}
// Runtime-internal section: no scheduling points, no alloc faults.
struct RT {
    RT() { self->quiet++; }
    ~RT() { self->quiet--; }
};
int my_slot()
{
    if (self->slot < 0) self->slot = T().nslots++;
    return self->slot;
}
CtxState &cs(const td::task_group_context *c) { return T().ctx[c]; }
bool cancelled(const td::task_group_context *c)
{
    for (int d = 0; c && d < 64; ++d) {
        auto it = T().ctx.find(c);
        if (it == T().ctx.end()) return false;
        if (it->second.cancelled) return true;
        c = it->second.parent;
    }
    return false;
}
void bind(td::task_group_context *c)
{
    auto &s = cs(c);
    if (!s.bound) {
        s.bound = true;
        if (c->my_traits.bound && self->tbb_ctx && self->tbb_ctx != c)
            s.parent = static_cast<td::task_group_context *>(self->tbb_ctx);
    }
}
bool take(TaskE &out, bool own_first)
{
    auto &t = T();
    const int me = my_slot();
    if (own_first && !t.q[me].empty()) {
        out = t.q[me].back();
        t.q[me].pop_back();
        return true;
    }
    int c[MAXSLOT], n = 0;
    // affinity-directed tasks first
    for (int i = 0; i < t.nslots; ++i)
        if (i != me && !t.q[i].empty()) c[n++] = i;
    if (!n) {
        if (!t.q[me].empty()) {
            out = t.q[me].back();
            t.q[me].pop_back();
            return true;
        }
        return false;
    }
    const int v = n == 1 ? c[0] : c[draw(SCHED, u32(n))];
    out = t.q[v].front();
    t.q[v].pop_front();
    t.steals++;
    probe("tbb-steals");
    return true;
}
// executes a task and its bypass chain. Enters and leaves with quiet (RT) held by caller.
void exec(TaskE e)
{
    self->vc.join(e.vc);
    void *saved = self->tbb_ctx;
    td::execution_data ed;
    ed.context = e.ctx;
    ed.original_slot = e.orig;
    ed.affinity_slot = e.aff;
    self->tbb_ctx = e.ctx;
    td::task *t = e.t;
    const int q = self->quiet;
    while (t) {
        T().tasks++;
        const bool can = cancelled(ed.context);
        td::task *nx = nullptr;
        const void *cc = ed.context;
        try {
            self->quiet = q > 0 ? q - 1 : 0;
            if (!self->quiet) point(self, g.syncw, 1);
            nx = can ? t->cancel(ed) : t->execute(ed);
            self->quiet = q;
        } catch (...) {
            self->quiet = q;
            auto &s = cs(ed.context);
            if (!s.cancelled) {
                s.cancelled = true;
                s.ex = std::current_exception();
                probe("tbb-exception-captured");
            }
            nx = t; // will be cancelled, as in oneTBB
        }
        svc(cc)->join(self->vc);
        self->vc.c[self->id]++;
        t = nx;
        ed.original_slot = static_cast<unsigned short>(my_slot());
        ed.affinity_slot = td::no_slot;
    }
    self->tbb_ctx = saved;
}
void *worker_main(void *)
{
    self->is_worker = true;
    RT rt;
    my_slot();
    for (;;) {
        TaskE e;
        if (take(e, true))
            exec(e);
        else
            block(&T().idle_chan, 0, 2);
    }
    return nullptr;
}
void start_workers()
{
    auto &t = T();
    if (t.started) return;
    t.started = true;
    my_slot();
    for (unsigned i = 0; i < g.workers; ++i) {
        Thread *w = spawn_thread(worker_main, nullptr);
        w->is_worker = true;
        w->slot = t.nslots++;
    }
}
void do_spawn(td::task &t, td::task_group_context &ctx, unsigned short aff)
{
    RT rt;
    start_workers();
    bind(&ctx);
    const int me = my_slot();
    TaskE e{&t, &ctx, static_cast<unsigned short>(me), aff, self->vc};
    self->vc.c[self->id]++;
    const int dst = (aff != td::no_slot && aff != td::any_slot && aff < T().nslots) ? aff : me;
    T().q[dst].push_back(e);
    wake_all(&T().idle_chan);
}
void do_wait(td::wait_context &w, td::task_group_context &ctx)
{
    // caller holds RT
    while (w.continue_execution()) {
        TaskE e;
        if (take(e, true))
            exec(e);
        else
            block(&T().idle_chan, 0, 3);
    }
    hb_acquire(self, &ctx);
    hb_acquire(self, &w);
}
void rethrow(td::task_group_context &ctx)
{
    std::exception_ptr ex;
    {
        RT rt;
        auto &s = cs(&ctx);
        ex = s.ex;
        if (ex) {
            s.ex = nullptr;
            s.cancelled = false; // oneTBB resets the context on rethrow
        }
    }
    if (ex) std::rethrow_exception(ex);
}
} // namespace

namespace tbb
{
namespace detail
{
namespace r1
{
void *allocate(d1::small_object_pool *&pool, std::size_t n, const d1::execution_data &)
{
    pool = reinterpret_cast<d1::small_object_pool *>(1);
    return memalign(64, n);
}
void *allocate(d1::small_object_pool *&pool, std::size_t n)
{
    pool = reinterpret_cast<d1::small_object_pool *>(1);
    return memalign(64, n);
}
void deallocate(d1::small_object_pool &, void *p, std::size_t n, const d1::execution_data &)
{
    if (self) forget(p, n);
    put_mem(p, 0);
}
void deallocate(d1::small_object_pool &, void *p, std::size_t n)
{
    if (self) forget(p, n);
    put_mem(p, 0);
}
void spawn(d1::task &t, d1::task_group_context &ctx) { do_spawn(t, ctx, d1::no_slot); if (simmed()) point(self, g.syncw, 4); }
void spawn(d1::task &t, d1::task_group_context &ctx, d1::slot_id id) { do_spawn(t, ctx, id); if (simmed()) point(self, g.syncw, 4); }
void execute_and_wait(d1::task &t, d1::task_group_context &t_ctx, d1::wait_context &w, d1::task_group_context &w_ctx)
{
    {
        RT rt;
        start_workers();
        bind(&t_ctx);
        bind(&w_ctx);
        const auto sl = static_cast<unsigned short>(my_slot());
        TaskE e{&t, &t_ctx, sl, d1::no_slot, self->vc};
        exec(e);
        do_wait(w, w_ctx);
    }
    rethrow(w_ctx);
}
void wait(d1::wait_context &w, d1::task_group_context &ctx)
{
    {
        RT rt;
        start_workers();
        bind(&ctx);
        do_wait(w, ctx);
    }
    rethrow(ctx);
}
d1::slot_id execution_slot(const d1::execution_data *)
{
    return self && self->slot >= 0 ? static_cast<d1::slot_id>(self->slot) : d1::slot_id(0);
}
d1::task_group_context *current_context() { return static_cast<d1::task_group_context *>(self ? self->tbb_ctx : nullptr); }
void notify_waiters(std::uintptr_t a)
{
    if (!self) return;
    RT rt;
    hb_release(self, reinterpret_cast<void *>(a));
    wake_all(&T().idle_chan);
}
void initialize(d1::task_group_context &c)
{
    if (!self) return;
    RT rt;
    T().ctx[&c] = CtxState{};
    c.my_cancellation_requested.store(0);
    c.my_state.store(d1::task_group_context::state::created);
    c.my_parent = nullptr;
    c.my_exception.store(nullptr);
}
void destroy(d1::task_group_context &c)
{
    if (!self) return;
    RT rt;
    T().ctx.erase(&c);
    VC *v = g.sync.find(u64(&c) | (u64(1) << 62));
    (void)v;
}
void reset(d1::task_group_context &c)
{
    RT rt;
    auto &s = cs(&c);
    s.cancelled = false;
    s.ex = nullptr;
}
bool cancel_group_execution(d1::task_group_context &c)
{
    RT rt;
    auto &s = cs(&c);
    if (s.cancelled) return false;
    s.cancelled = true;
    return true;
}
bool is_group_execution_cancelled(d1::task_group_context &c)
{
    RT rt;
    return cancelled(&c);
}
void capture_fp_settings(d1::task_group_context &) {}
int max_concurrency(const d1::task_arena_base *) { return int(g.workers) + 1; }
void throw_exception(d0::exception_id id)
{
    switch (id) {
        case d0::exception_id::bad_alloc:
            throw std::bad_alloc();
        case d0::exception_id::out_of_range:
            throw std::out_of_range("Index out of requested size range");
        default:
            throw std::runtime_error("tbb exception");
    }
}
void *cache_aligned_allocate(std::size_t n) { return memalign(128, n); }
void cache_aligned_deallocate(void *p)
{
    put_mem(p, 0);
}
std::size_t cache_line_size() { return 128; }
void *allocate_memory(std::size_t n) { return malloc(n); }
void deallocate_memory(void *p)
{
    put_mem(p, 0);
}
bool is_tbbmalloc_used() { return false; }
void wait_on_address(void *a, d1::delegate_base &pred, std::uintptr_t)
{
    while (true) {
        bool done = pred();
        if (done) return;
        RT rt;
        block(reinterpret_cast<char *>(a), 0, 5);
        return;
    }
}
void notify_by_address(void *a, std::uintptr_t)
{
    RT rt;
    wake_all(a);
}
void notify_by_address_one(void *a)
{
    RT rt;
    wake_one(a);
}
void notify_by_address_all(void *a)
{
    RT rt;
    wake_all(a);
}
void isolate_within_arena(d1::delegate_base &d, std::intptr_t) { d(); }
void execute(d1::task_arena_base &, d1::delegate_base &d) { d(); }
void initialize(d1::task_arena_base &) {}
void terminate(d1::task_arena_base &) {}
bool attach(d1::task_arena_base &) { return true; }
void create(d1::global_control &) {}
void destroy(d1::global_control &) {}
std::size_t global_control_active_value(int p) { return p == 0 ? g.workers + 1 : 0; }
void call_itt_notify(int, void *) {}
void create_itt_sync(void *, const char *, const char *) {}
void itt_set_sync_name(void *, const char *) {}
void assertion_failure(const char *loc, int, const char *ex, const char *)
{
    die(ST_VIOLATION, "tbb-assertion", (std::string(loc) + " " + ex).c_str());
}
} // namespace r1
} // namespace detail
} // namespace tbb
