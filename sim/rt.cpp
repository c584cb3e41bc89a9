#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

// ---------------------------------------------------------------- raw syscalls (never interposed)
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define RAW(n, ...) raw_(n, ##__VA_ARGS__)
static inline long raw_(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    return raw6(n, a, b, c, d, e, f);
}
[[noreturn]] static void die(int code)
{
    for (;;)
        RAW(SYS_exit_group, code);
}
static void rawmsg(const char *s) { RAW(SYS_write, 2, (long)s, strlen(s)); }

namespace sim {
const char *fault_name[F_N] = {
  "alloc_failure",   "rng_open_error",  "rng_short_read", "rng_eintr",     "rng_eio",     "rng_eof",
  "clock_jump",      "clock_stall",     "spurious_wakeup", "thread_create_failure", "thread_stall",
  "process_crash",   "torn_write",      "lost_write",     "bit_flip",      "duplicate_record",
  "message_drop",    "message_duplicate", "message_reorder", "tampering",  "bad_input",
  "mismatched_election", "buffer_state_change"};

u64 mix(u64 x)
{
    x ^= x >> 30;
    x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27;
    x *= 0x94d049bb133111ebull;
    x ^= x >> 31;
    return x;
}
u64 mix2(u64 a, u64 b) { return mix(mix(a + 0x9e3779b97f4a7c15ull) ^ (b * 0xff51afd7ed558ccdull + 0x165667b19e3779f9ull)); }

Shared *sh = nullptr;
Spec spec;
Config cfg;
Rng frng;

// ---------------------------------------------------------------- memory layout
static const uintptr_t HEAP = 0x100000000000ull, HEAP_SZ = 3ull << 30;
static const uintptr_t RTHEAP = 0x110000000000ull, RTHEAP_SZ = 1ull << 30;
static const uintptr_t STK = 0x120000000000ull, STK_SZ = 2ull << 20;
static const int NT = 16; // max threads of a simulated process
struct Cell {
    u32 wclk, wpc, rpc;
    u8 wtid, wmask;
    u8 pad[2];
    u32 rclk[NT];
    u8 rmask[NT];
};
static const uintptr_t SHH = 0x130000000000ull; // heap shadow
static const uintptr_t SHG = 0x150000000000ull; // globals shadow (non-PIE image below 64 MB)
static const uintptr_t GLO = 0x400000, GHI = 0x4000000;
static bool mem_ready = false;
static void mapfix(uintptr_t at, u64 sz)
{
    long r = RAW(SYS_mmap, at, sz, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long)at) {
        rawmsg("sim: cannot reserve address space\n");
        die(70);
    }
}
static void mem_init()
{
    if (mem_ready)
        return;
    mem_ready = true;
    mapfix(HEAP, HEAP_SZ);
    mapfix(RTHEAP, RTHEAP_SZ);
    mapfix(STK, STK_SZ * (NT + 1));
    mapfix(SHH, HEAP_SZ / 8 * sizeof(Cell));
    mapfix(SHG, (GHI - GLO) / 8 * sizeof(Cell));
}

// ---------------------------------------------------------------- threads
enum TState { T_FREE = 0, T_RUN, T_MUTEX, T_COND, T_JOIN, T_FUTEX, T_SLEEP, T_GUARD, T_DONE };
struct VC { u32 c[NT]; };
struct T {
    u32 id, idle;
    u64 seen[128]; // operation contexts this thread has entered
    TState st;
    volatile int go;
    void *wobj;       // what it waits on
    u64 deadline;     // 0 none
    bool timedout, signaled;
    int lib, rt;
    u64 step;         // all steps
    u32 ctx, cstep;   // operation context and steps within it
    u64 quantum;      // steps since last scheduled
    u64 next_rand;    // record mode: cstep-independent countdown
    u32 prio;
    u64 stall_until;
    VC vc;
    void *(*fn)(void *);
    void *arg, *ret;
    bool detached, used;
    uintptr_t slo, shi;
    u32 occ[F_N];
    // armed faults
    u64 alloc_n, alloc_at;
    bool alloc_fired;
    int nofail;
    u64 rng_n, rng_at;
    int rng_kind;
    bool rng_fired, rng_sticky;
    u32 si; // replay cursor
    std::vector<SchedEnt> *rep;
};
static T th[NT];
static __thread T *me = nullptr;
static int nth = 0;
static bool on = false;      // simulation active
static bool track = false;   // race tracking (more than one thread has existed)
static u64 gstep = 0, nswitch = 0;
static u64 now = 0;
static int64_t skew = 0;
static bool stalled_clock = false;
static u64 stalled_at = 0;
static Rng srng; // scheduling decisions
static Rng erng; // entropy source
static int strat = 0;
static double p_sync = 0.3, p_shared = 0.1;
static u64 gap_mean = 1000;
static u64 pct_count = 0;
static std::vector<u64> *pct_points = nullptr;
static u64 crash_at = 0;
static u64 dig = 1469598103934665603ull;
static std::vector<u8> *rlog = nullptr;
static u64 rsucc = 0;
static u64 epoch0 = 1600000000ull * 1000000000ull;

struct InRt {
    InRt() { if (me) me->rt++; }
    ~InRt() { if (me) me->rt--; }
};

bool active() { return on; }
u32 self() { return me ? me->id : 0; }
u64 now_ns() { return now; }
void clock_jump(int64_t ns) { skew += ns; }
void clock_stall(bool s)
{
    stalled_clock = s;
    stalled_at = now;
}
static u64 wall_ns() { return epoch0 + (stalled_clock ? stalled_at : now) + skew; }

static void futex_wait(volatile int *w)
{
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        RAW(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void futex_wake(volatile int *w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    RAW(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void publish()
{
    sh->digest = dig;
    sh->steps += gstep;
    sh->switches += nswitch;
    sh->simns += now;
    gstep = 0;
    nswitch = 0;
    now = 0;
}
static int trfd = -2;
static void tr(const char *k, u64 a, u64 b, u64 c)
{
    if (trfd == -2) {
        const char *p = getenv("SIM_TRACEF");
        trfd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
        if (trfd >= 0)
            dprintf(trfd, "=== start replay=%d\n", (int)spec.replay);
    }
    if (trfd < 0)
        return;
    dprintf(trfd, "%s %lu %lu %lu\n", k, (unsigned long)a, (unsigned long)b, (unsigned long)c);
    if (me && me->rep && me->si < me->rep->size()) {
        auto &e = (*me->rep)[me->si];
        dprintf(trfd, "# t%d ctx %u cstep %lu next entry ctx %u cstep %lu to %u\n", me->id, me->ctx, (u64)me->cstep, e.ctx, (u64)e.cstep, e.to);
    } else if (!spec.replay && sh->nsched)
        dprintf(trfd, "# rec n %u last tid %u ctx %u cstep %lu to %u\n", sh->nsched, sh->sched[sh->nsched - 1].tid, sh->sched[sh->nsched - 1].ctx, (u64)sh->sched[sh->nsched - 1].cstep, sh->sched[sh->nsched - 1].to);
}
void event(u64 v)
{
    if (trfd != -1)
        tr("event", v, gstep, 0);
    dig = mix2(dig, v);
}
void event(const void *p, size_t n)
{
    const u8 *b = (const u8 *)p;
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++)
        h = (h ^ b[i]) * 1099511628211ull;
    event(h);
}
void eval(u64 n) { sh->evals += n; }
void probe(int i, u64 n) { sh->probe[i] += n; }
void sample(const std::string &s)
{
    if (sh->sample[0])
        return;
    strncpy(sh->sample, s.c_str(), sizeof sh->sample - 1);
}
void violation(const char *cls, const char *fmt, ...)
{
    if (me)
        me->rt++;
    va_list ap;
    va_start(ap, fmt);
    strncpy(sh->vclass, cls, sizeof sh->vclass - 1);
    vsnprintf(sh->vmsg, sizeof sh->vmsg, fmt, ap);
    va_end(ap);
    event(sh->vclass, strlen(sh->vclass));
    publish();
    // what only says that the simulator was at its limits says nothing about the library
    sh->status = strcmp(sh->vclass, "harness") ? ST_VIOLATION : ST_CUTOFF;
    die(3);
}
void finish_ok()
{
    publish();
    sh->status = ST_OK;
    die(0);
}
static void describe_threads(char *buf, size_t n);
[[noreturn]] static void cutoff(const char *why)
{
    if (cfg.cap_is_violation) {
        char b[512];
        describe_threads(b, sizeof b);
        violation("no_progress", "%s:%s", why, b);
    }
    publish();
    snprintf(sh->vmsg, sizeof sh->vmsg, "%s", why);
    sh->status = ST_CUTOFF;
    die(4);
}

// ---------------------------------------------------------------- scheduler
static void rec(T *t, u32 to)
{
    if (spec.replay)
        return;
    if (sh->nsched < MAXSCHED) {
        SchedEnt &e = sh->sched[sh->nsched++];
        e = {sh->inc, t->id, t->ctx, t->cstep, to};
    } else
        sh->sched_over = 1;
}
static bool runnable(T *t)
{
    return t->st == T_RUN;
}
static T *rr_next(T *from)
{
    for (int i = 1; i <= nth; i++) {
        T *t = &th[(from->id + i) % nth];
        if (runnable(t) && t->stall_until <= gstep)
            return t;
    }
    for (int i = 1; i <= nth; i++) { // all stalled: un-stall
        T *t = &th[(from->id + i) % nth];
        if (runnable(t))
            return t;
    }
    return nullptr;
}
static T *rr_plain(T *from)
{
    for (int i = 1; i <= nth; i++) {
        T *t = &th[(from->id + i) % nth];
        if (runnable(t))
            return t;
    }
    return nullptr;
}
static void wake_timers();
static const SchedEnt *rep_entry(T *t)
{
    if (!t->rep)
        return nullptr;
    while (t->si < t->rep->size()) {
        const SchedEnt &e = (*t->rep)[t->si];
        if (e.ctx == t->ctx && e.cstep == t->cstep)
            return &e;
        // entries of contexts already passed are skipped, later ones kept
        bool past;
        if (e.ctx == t->ctx)
            past = e.cstep < t->cstep;
        else if (e.ctx >= IDLE) // between operations: numbered per thread
            past = e.ctx - IDLE <= t->idle;
        else
            past = dropped(e.ctx) || (e.ctx >= 1000 && dropped(e.ctx % 1000)) || (e.ctx < 8192 && t->seen[e.ctx >> 6] >> (e.ctx & 63) & 1);
        if (past)
            t->si++;
        else
            return nullptr;
    }
    return nullptr;
}
static void hand(T *m, T *n)
{
    if (m == n) {
        m->quantum = 0;
        return;
    }
    nswitch++;
    if (trfd != -1)
        tr("hand", (u64)m->id << 8 | n->id, m->cstep, gstep);
    dig = mix2(dig, (u64)m->id << 40 ^ (u64)n->id << 32 ^ m->cstep);
    sh->ilv = mix2(sh->ilv, (u64)m->id << 40 ^ (u64)n->id << 32 ^ (u64)m->ctx << 8 ^ m->cstep);
    n->quantum = 0;
    futex_wake(&n->go);
    futex_wait(&m->go);
}
static T *random_runnable(T *m, bool other)
{
    T *c[NT];
    int k = 0;
    for (int i = 0; i < nth; i++)
        if (runnable(&th[i]) && th[i].stall_until <= gstep && !(other && &th[i] == m))
            c[k++] = &th[i];
    if (!k)
        return nullptr;
    return c[srng.below(k)];
}
static T *prio_runnable()
{
    T *b = nullptr;
    for (int i = 0; i < nth; i++)
        if (runnable(&th[i]) && th[i].stall_until <= gstep && (!b || th[i].prio > b->prio))
            b = &th[i];
    return b;
}
// voluntary point: kind 0 access, 1 contended access, 2 sync op, 3 yield
static void point(T *t, int kind)
{
    t->step++;
    t->cstep++;
    t->quantum++;
    gstep++;
    now += 25;
    if (crash_at && gstep >= crash_at) {
        sh->fired[F_CRASH]++;
        publish();
        sh->status = ST_CRASHED_SIM;
        die(5);
    }
    if (gstep > cfg.step_cap)
        cutoff("step budget exhausted: no progress (livelock or unbounded loop)");
    if (nth < 2 && kind != 3)
        return;
    if ((gstep & 255) == 0)
        wake_timers();
    T *n = nullptr, *d = nullptr; // d: what a replay without an entry does
    if (kind == 3) {
        d = rr_plain(t);
        n = rr_next(t);
        if (!n || n == t) { // nobody else runnable: let time pass for sleepers
            bool any = false;
            for (int i = 0; i < nth; i++)
                if (th[i].deadline && th[i].st != T_RUN && th[i].st != T_FREE && th[i].st != T_DONE)
                    any = true;
            if (any) {
                now += 1000000;
                wake_timers();
            }
        }
    } else if (t->quantum > cfg.quantum) {
        d = rr_plain(t);
        n = rr_next(t);
    }
    if (spec.replay) {
        n = d;
        if (t->rep) {
            const SchedEnt *e = rep_entry(t);
            if (e) {
                t->si++;
                if (e->to < (u32)nth && runnable(&th[e->to]))
                    n = &th[e->to];
            }
        }
    } else {
        bool sw = false;
        switch (strat) {
        case 0: break;
        case 1:
            if (t->next_rand == 0)
                t->next_rand = 1 + srng.logu(gap_mean * 2);
            if (--t->next_rand == 0)
                sw = true;
            if (kind == 2 && srng.chance(0.1))
                sw = true;
            break;
        case 2:
            if (kind == 1)
                sw = srng.chance(p_shared);
            else if (kind >= 2)
                sw = srng.chance(p_sync);
            break;
        case 3:
            if (d && kind != 3) { // used up its quantum: make way
                t->prio = t->prio > 100 ? (u32)srng.below(t->prio) : (u32)srng.below(1000);
                T *b = prio_runnable();
                if (b && b != t)
                    n = b;
            } else if (kind >= 1) {
                pct_count++;
                for (u64 p : *pct_points)
                    if (p == pct_count)
                        t->prio = (u32)(srng.below(1000));
                if (kind == 3)
                    t->prio = t->prio > 100 ? (u32)srng.below(t->prio) : (u32)srng.below(1000);
                T *b = prio_runnable();
                if (b && b != t)
                    n = b; // otherwise a yield keeps its round robin default so that spinners make way
            }
            break;
        }
        if (cfg.p_stall > 0 && kind >= 1 && srng.chance(cfg.p_stall)) {
            t->stall_until = gstep + srng.logu(200000);
            sh->fired[F_THREAD_STALL]++;
            sw = true;
        }
        if (sw) {
            T *r = random_runnable(t, true);
            if (r)
                n = r;
        }
        if ((n ? n : t) != (d ? d : t))
            rec(t, n ? n->id : t->id);
    }
    if (n && n != t)
        hand(t, n);
}
static void wake_timers()
{
    for (int i = 0; i < nth; i++) {
        T *t = &th[i];
        if (t->deadline && t->deadline <= now && t->st != T_RUN && t->st != T_DONE && t->st != T_FREE) {
            t->timedout = true;
            t->deadline = 0;
            t->st = T_RUN;
        }
    }
}
static void describe_threads(char *buf, size_t n)
{
    static const char *nm[] = {"free", "run", "mutex", "cond", "join", "futex", "sleep", "guard", "done"};
    size_t k = 0;
    for (int i = 0; i < nth && k < n; i++)
        k += snprintf(buf + k, n - k, " t%d:%s", i, nm[th[i].st]);
}
// current thread cannot continue (st set != T_RUN); run somebody else until we are runnable again
static void block(T *t)
{
    t->step++;
    t->cstep++;
    gstep++;
    now += 25;
    for (;;) {
        wake_timers();
        T *n = nullptr;
        if (spec.replay && t->rep) {
            const SchedEnt *e = rep_entry(t);
            if (e) {
                t->si++;
                if (e->to < (u32)nth && runnable(&th[e->to]))
                    n = &th[e->to];
            }
        }
        if (!n) {
            T *d = rr_plain(t);
            n = d;
            if (!spec.replay && d) {
                n = rr_next(t);
                T *r = strat == 3 ? prio_runnable() : strat == 0 ? n : random_runnable(t, false);
                if (r)
                    n = r;
                if (n != d)
                    rec(t, n->id);
            }
        }
        if (n) {
            hand(t, n);
            if (t->st == T_RUN)
                return;
            continue;
        }
        // nobody runnable: advance the clock
        u64 best = 0;
        for (int i = 0; i < nth; i++)
            if (th[i].deadline && th[i].st != T_RUN && th[i].st != T_DONE && th[i].st != T_FREE)
                if (!best || th[i].deadline < best)
                    best = th[i].deadline;
        if (!best) {
            char b[512];
            describe_threads(b, sizeof b);
            violation("deadlock", "deadlock: no thread can run:%s", b);
        }
        if (best > now)
            now = best;
    }
}

// ---------------------------------------------------------------- happens-before
struct SyncVC { uintptr_t addr; VC vc; };
static const u32 SYN = 1 << 15;
static SyncVC *syn = nullptr;
static u32 nsyn = 0;
static VC *synvc(const void *a)
{
    uintptr_t x = (uintptr_t)a;
    u32 i = (u32)(mix(x) & (SYN - 1));
    for (u32 k = 0; k < SYN; k++, i = (i + 1) & (SYN - 1)) {
        if (syn[i].addr == x)
            return &syn[i].vc;
        if (!syn[i].addr) {
            if (nsyn > SYN * 3 / 4)
                return &syn[i].vc; // table full: shared clock, only adds order (never a false race)
            nsyn++;
            syn[i].addr = x;
            return &syn[i].vc;
        }
    }
    return &syn[0].vc;
}
static void vjoin(VC *a, const VC *b)
{
    for (int i = 0; i < NT; i++)
        if (b->c[i] > a->c[i])
            a->c[i] = b->c[i];
}
static void acq(T *t, const void *a)
{
    if (!track)
        return;
    vjoin(&t->vc, synvc(a));
}
static void rel(T *t, const void *a)
{
    if (!track)
        return;
    vjoin(synvc(a), &t->vc);
    t->vc.c[t->id]++;
}
static inline Cell *cell(uintptr_t a)
{
    if (a - HEAP < HEAP_SZ)
        return (Cell *)SHH + ((a - HEAP) >> 3);
    if (a - GLO < GHI - GLO)
        return (Cell *)SHG + ((a - GLO) >> 3);
    return nullptr;
}
static void clear_shadow(uintptr_t a, size_t n)
{
    if (!track || !n)
        return;
    Cell *c = cell(a), *e = cell(a + n - 1);
    if (!c || !e)
        return;
    size_t bytes = (char *)(e + 1) - (char *)c;
    if (bytes > 1 << 20) {
        uintptr_t lo = ((uintptr_t)c + 4095) & ~4095ull, hi = (uintptr_t)(e + 1) & ~4095ull;
        memset((void *)c, 0, lo - (uintptr_t)c);
        RAW(SYS_madvise, lo, hi - lo, MADV_DONTNEED);
        memset((void *)hi, 0, (uintptr_t)(e + 1) - hi);
    } else
        memset((void *)c, 0, bytes);
}
[[noreturn]] static void race(T *t, uintptr_t a, bool w, u32 pc, int other, bool ow, u32 opc)
{
    // class carries the two code addresses (symbolised by the driver)
    char cls[96];
    snprintf(cls, sizeof cls, "data_race");
    violation(cls, "data race on %s: thread %u %s at pc=0x%x (operation %u), unordered with %s by thread %d at pc=0x%x",
              a - HEAP < HEAP_SZ ? "heap object" : "global", t->id, w ? "writes" : "reads", pc, t->ctx,
              ow ? "write" : "read", other, opc);
}
static inline void access1(T *t, uintptr_t a, u8 mask, bool w, u32 pc)
{
    Cell *c = cell(a);
    if (!c) {
        point(t, 0);
        return;
    }
    if (!track) {
        point(t, 0);
        return;
    }
    // is this location contended?
    int kind = 0;
    if (c->wclk && c->wtid != t->id)
        kind = 1;
    else if (w || c->wclk) {
        for (int i = 0; i < nth; i++)
            if (c->rclk[i] && i != (int)t->id) {
                kind = 1;
                break;
            }
    }
    point(t, kind);
    if (c->wclk && c->wtid != t->id && (c->wmask & mask) && c->wclk > t->vc.c[c->wtid]) {
        if (cfg.race_fatal)
            race(t, a, w, pc, c->wtid, true, c->wpc);
        sh->probe[0]++;
    }
    u32 my = t->vc.c[t->id];
    if (w) {
        for (int i = 0; i < nth; i++)
            if (i != (int)t->id && c->rclk[i] && (c->rmask[i] & mask) && c->rclk[i] > t->vc.c[i]) {
                if (cfg.race_fatal)
                    race(t, a, w, pc, i, false, c->rpc);
                sh->probe[0]++;
            }
        if (c->wtid == t->id && c->wclk == my)
            c->wmask |= mask;
        else {
            c->wclk = my;
            c->wtid = t->id;
            c->wmask = mask;
        }
        c->wpc = pc;
    } else {
        if (c->rclk[t->id] == my)
            c->rmask[t->id] |= mask;
        else {
            c->rclk[t->id] = my;
            c->rmask[t->id] = mask;
        }
        c->rpc = pc;
    }
}
static inline void access(void *p, u32 n, bool w, u32 pc)
{
    if (!on)
        return;
    T *t = me;
    if (!t || t->lib == 0 || t->rt)
        return;
    uintptr_t a = (uintptr_t)p;
    if (a - t->slo < t->shi - t->slo)
        return;
    t->rt++;
    while (n) {
        u32 off = a & 7, k = 8 - off < n ? 8 - off : n;
        access1(t, a, (u8)(((1u << k) - 1) << off), w, pc);
        a += k;
        n -= k;
    }
    t->rt--;
}
static void range_access(void *p, size_t n, bool w, u32 pc)
{
    if (!on || !n)
        return;
    T *t = me;
    if (!t || t->lib == 0 || t->rt)
        return;
    // large ranges: touch at most 64 granules (first ones and last) to bound the cost
    if (n <= 512)
        access(p, n, w, pc);
    else {
        access(p, 256, w, pc);
        access((char *)p + n - 64, 64, w, pc);
    }
}

// ---------------------------------------------------------------- allocator
struct Hdr { u64 size; u32 cls; u32 magic; };
static const u32 MAGIC = 0x51a110c8, FREED = 0xdeadf4ee;
static uintptr_t bump[2] = {HEAP, RTHEAP};
static const uintptr_t lim[2] = {HEAP + HEAP_SZ, RTHEAP + RTHEAP_SZ};
static void *fl[2][80];
static u64 livebytes = 0;
static u32 cls_of(size_t n, size_t *cap)
{
    if (n <= 1024) {
        u32 c = n ? (n + 15) / 16 : 1;
        *cap = c * 16;
        return c; // 1..64
    }
    u32 c = 65;
    size_t s = 2048;
    while (s < n) {
        s <<= 1;
        c++;
    }
    *cap = s;
    return c;
}
static const u64 CAN = 0x7c0ffee5c0ffee17ull;
bool parent_mode = false;
static void *xalloc(size_t n, size_t align)
{
    mem_init();
    int ar = (me ? me->rt > 0 : true) ? 1 : 0;
    if (!on)
        ar = parent_mode ? 1 : 0; // the driver's own allocations never move those of an execution
    size_t cap;
    if (align > 16) { // rare: over-aligned
        size_t tot = n + align + sizeof(Hdr) + 8;
        uintptr_t p = bump[ar];
        bump[ar] += (tot + 15) & ~15ull;
        if (bump[ar] > lim[ar])
            return nullptr;
        uintptr_t q = (p + sizeof(Hdr) + align - 1) & ~(align - 1);
        Hdr *h = (Hdr *)q - 1;
        h->size = n;
        h->cls = 0;
        h->magic = MAGIC;
        memcpy((char *)q + n, &CAN, 8);
        return (void *)q;
    }
    u32 c = cls_of(n + 8, &cap);
    if (c >= 80)
        return nullptr;
    void *u;
    if (fl[ar][c]) {
        u = fl[ar][c];
        fl[ar][c] = *(void **)u;
    } else {
        uintptr_t p = bump[ar];
        if (p + sizeof(Hdr) + cap > lim[ar])
            return nullptr;
        bump[ar] = p + sizeof(Hdr) + cap;
        u = (void *)(p + sizeof(Hdr));
    }
    Hdr *h = (Hdr *)u - 1;
    h->size = n;
    h->cls = c;
    h->magic = MAGIC;
    memcpy((char *)u + n, &CAN, 8);
    livebytes += n;
    if (on && ar == 0) {
        clear_shadow((uintptr_t)u, cap);
        if (cfg.poison && n <= 4096)
            memset(u, 0xA5, n);
    }
    return u;
}
static void raw_fill(void *p, size_t n);
static void xfree(void *u, bool check = true)
{
    if (!u)
        return;
    uintptr_t a = (uintptr_t)u;
    int ar = a - HEAP < HEAP_SZ ? 0 : a - RTHEAP < RTHEAP_SZ ? 1 : -1;
    if (ar < 0) {
        if (on)
            violation("bad_free", "free of a pointer that was never allocated");
        return;
    }
    Hdr *h = (Hdr *)u - 1;
    if (h->magic != MAGIC) {
        if (sh && on)
            violation("bad_free", h->magic == FREED ? "double free" : "free of a bad pointer or overwritten heap header");
        rawmsg("sim: bad free\n");
        die(71);
    }
    if (memcmp((char *)u + h->size, &CAN, 8)) {
        if (sh && on)
            violation("heap_overflow", "heap buffer of %lu bytes was written past its end", (unsigned long)h->size);
        rawmsg("sim: heap overflow\n");
        die(71);
    }
    h->magic = FREED;
    if (!h->cls)
        return;
    livebytes -= h->size;
    if (on && ar == 0 && cfg.poison && h->size <= 4096)
        check ? (void)memset(u, 0xDD, h->size) : raw_fill(u, h->size); // the checked fill also reports accesses unordered with the free
    *(void **)u = fl[ar][h->cls];
    fl[ar][h->cls] = u;
}
u64 live_bytes() { return livebytes; }

static bool alloc_fails()
{
    if (!on)
        return false;
    T *t = me;
    if (!t || t->lib == 0 || t->rt)
        return false;
    if (t->nofail > 0)
        return false;
    t->alloc_n++;
    if (t->alloc_at && t->alloc_n == t->alloc_at) {
        t->alloc_fired = true;
        t->alloc_at = 0;
        sh->fired[F_ALLOC]++;
        return true;
    }
    return false;
}
void arm_alloc(u64 n)
{
    me->alloc_n = 0;
    me->alloc_at = n;
    me->alloc_fired = false;
    sh->armed[F_ALLOC]++;
}
bool disarm_alloc()
{
    me->alloc_at = 0;
    bool f = me->alloc_fired;
    me->alloc_fired = false;
    return f;
}
u64 alloc_count() { return me->alloc_n; }
extern "C" void sim_nofail(int d)
{
    if (on && me)
        me->nofail += d;
}

// ---------------------------------------------------------------- entropy source
void arm_rng(Fault k, u64 n, bool sticky)
{
    me->rng_n = 0;
    me->rng_at = n;
    me->rng_kind = k;
    me->rng_fired = false;
    me->rng_sticky = sticky;
    sh->armed[k]++;
}
bool disarm_rng()
{
    me->rng_at = 0;
    bool f = me->rng_fired;
    me->rng_fired = false;
    return f;
}
u64 rng_reads() { return me->rng_n; }
const std::vector<u8> &rng_log() { return *rlog; }
u64 rng_success() { return rsucc; }
static bool rng_fault_now(bool opening)
{
    T *t = me;
    if (!t || !t->rng_at)
        return false;
    bool mine = opening ? t->rng_kind == F_RNG_OPEN : t->rng_kind != F_RNG_OPEN;
    if (!mine)
        return false;
    t->rng_n++;
    if (t->rng_n == t->rng_at || (t->rng_sticky && t->rng_n > t->rng_at)) {
        t->rng_fired = true;
        sh->fired[t->rng_kind]++;
        return true;
    }
    return false;
}
static void entropy(void *buf, size_t n)
{
    InRt r;
    u8 *b = (u8 *)buf;
    for (size_t i = 0; i < n; i++)
        b[i] = (u8)(erng.next() >> 24);
    if (on && rlog && rlog->size() < (8u << 20))
        rlog->insert(rlog->end(), b, b + n);
    rsucc++;
}
static long entropy_read(void *buf, size_t n)
{
    if (on && rng_fault_now(false)) {
        T *t = me;
        switch (t->rng_kind) {
        case F_RNG_SHORT: {
            size_t k = n ? (size_t)(mix2(spec.seed, t->rng_n) % n) : 0;
            entropy(buf, k);
            return (long)k;
        }
        case F_RNG_EINTR: errno = EINTR; return -1;
        case F_RNG_EIO: errno = EIO; return -1;
        case F_RNG_EOF: return 0;
        }
    }
    entropy(buf, n);
    return (long)n;
}

// ---------------------------------------------------------------- planning
bool dropped(u32 op)
{
    for (u32 d : spec.drop)
        if (d == op)
            return true;
    return false;
}
bool plan(Fault k, double p, u64 maxarg, u64 *arg)
{
    T *t = me;
    u32 occ = t ? t->occ[k]++ : 0, tid = t ? t->id : 0, c = t ? t->ctx : IDLE;
    if (spec.replay) {
        for (auto &e : spec.faults)
            if (e.kind == (u32)k && e.ctx == c && e.occ == occ && e.tid == tid) {
                if (arg)
                    *arg = e.arg;
                return true;
            }
        return false;
    }
    if (p <= 0 || !frng.chance(p))
        return false;
    u64 a = maxarg ? frng.below(maxarg) : 0;
    if (arg)
        *arg = a;
    if (sh->nfault < MAXFAULT)
        sh->fault[sh->nfault++] = {(u32)k, c, occ, tid, a};
    return true;
}
void fired(Fault k) { sh->fired[k]++; }
void ctx(u32 c)
{
    T *t = me;
    if (!t)
        return;
    if (c == CTX_NONE)
        c = IDLE + ++t->idle;
    else if (c < 8192)
        t->seen[c >> 6] |= 1ull << (c & 63);
    t->ctx = c;
    t->cstep = 0;
    memset(t->occ, 0, sizeof t->occ);
    dig = mix2(dig, ((u64)t->id << 32) ^ c);
}
void arm_crash(u64 n)
{
    crash_at = gstep + n;
    sh->armed[F_CRASH]++;
}
bool disarm_crash()
{
    bool b = crash_at != 0;
    crash_at = 0;
    return b;
}
u64 cur_step() { return gstep; }

Lib::Lib() { if (me) me->lib++; }
Lib::~Lib() { if (me) me->lib--; }
Host::Host() : saved(me ? me->lib : 0) { if (me) me->lib = 0; }
Host::~Host() { if (me) me->lib = saved; }

// ---------------------------------------------------------------- life cycle
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = nullptr;
static void init_thread(T *t, u32 id)
{
    memset((void *)t, 0, sizeof *t);
    t->id = id;
    t->used = true;
    t->st = T_RUN;
    t->ctx = IDLE;
    t->vc.c[id] = 1;
    t->prio = spec.replay ? 0 : (u32)(1000 + srng.below(1000));
    if (spec.replay) {
        bool any = false;
        for (auto &e : spec.sched)
            any |= e.inc == sh->inc && e.tid == id;
        if (any) {
            if (me)
                me->rt++;
            t->rep = new std::vector<SchedEnt>;
            for (auto &e : spec.sched)
                if (e.inc == sh->inc && e.tid == id)
                    t->rep->push_back(e);
            if (me)
                me->rt--;
        }
    }
}
extern "C" void *__libc_stack_end;
void start(u32 incarnation)
{
    sh->inc = incarnation;
    parent_mode = true;
    if (!real_create)
        real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    u64 base = mix2(spec.seed, 0x5c4ed + incarnation);
    srng = Rng(mix2(base, 1));
    frng = Rng(mix2(base, 2));
    erng = Rng(mix2(base, 3));
    // strategy (swarm)
    Rng k(mix2(base, 4));
    strat = (int)k.below(8);
    strat = strat == 0 ? 0 : strat <= 2 ? 1 : strat <= 5 ? 2 : 3;
    static const u64 gaps[] = {30, 300, 3000, 30000};
    gap_mean = gaps[k.below(4)];
    static const double ps[] = {0.5, 0.2, 0.05, 0.01};
    p_shared = ps[k.below(4)];
    p_sync = ps[k.below(3)];
    pct_points = new std::vector<u64>;
    u64 est = 1ull << k.range(4, 15);
    for (u64 i = 0, d = k.range(1, 4); i < d; i++)
        pct_points->push_back(1 + k.below(est));
    rlog = new std::vector<u8>;
    if (!syn)
        syn = (SyncVC *)calloc(SYN, sizeof(SyncVC));
    nth = 0;
    th[0].rep = nullptr;
    init_thread(&th[0], 0);
    nth = 1;
    me = &th[0];
    th[0].shi = (uintptr_t)__libc_stack_end + (1 << 20);
    th[0].slo = th[0].shi - (256u << 20);
    gstep = nswitch = now = 0;
    skew = (int64_t)(k.below(4ull * 365 * 86400) * 1000000000ull);
    stalled_clock = false;
    crash_at = 0;
    track = false;
    parent_mode = false;
    on = true;
    sh->nthreads = 1;
}
void stop()
{
    on = false;
    track = false;
    publish();
}
static void *tramp(void *p)
{
    T *t = (T *)p;
    me = t;
    futex_wait(&t->go);
    t->ret = t->fn(t->arg);
    // finished
    t->rt++;
    rel(t, t);
    t->st = T_DONE;
    for (int i = 0; i < nth; i++)
        if (th[i].st == T_JOIN && th[i].wobj == t) {
            th[i].st = T_RUN;
        }
    block(t); // never returns: nobody sets a done thread runnable
    for (;;)
        RAW(SYS_pause);
}
static int create(void *(*fn)(void *), void *arg)
{
    if (nth >= NT)
        violation("harness", "too many threads");
    T *t = &th[nth];
    u32 id = nth;
    InRt r;
    if (!track) { // first extra thread: everything so far happens before it
        track = true;
        me->vc.c[me->id]++;
    }
    init_thread(t, id);
    vjoin(&t->vc, &me->vc);
    t->vc.c[id] = 1;
    me->vc.c[me->id]++;
    t->fn = fn;
    t->arg = arg;
    t->slo = STK + STK_SZ * id;
    t->shi = t->slo + STK_SZ;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)t->slo, STK_SZ);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_t pt;
    nth++;
    if ((u32)nth > sh->nthreads)
        sh->nthreads = nth;
    int e = real_create(&pt, &at, tramp, t);
    if (e) {
        rawmsg("sim: real pthread_create failed\n");
        die(72);
    }
    return (int)id;
}
static void join_tid(int id)
{
    T *t = me, *o = &th[id];
    t->rt++;
    point(t, 2);
    while (o->st != T_DONE) {
        t->st = T_JOIN;
        t->wobj = o;
        block(t);
    }
    acq(t, o);
    t->rt--;
}
struct Fn { std::function<void()> f; };
static void *fn_run(void *p)
{
    ((Fn *)p)->f();
    return nullptr;
}
int spawn(std::function<void()> f, const char *)
{
    Fn *x = new Fn{std::move(f)};
    int id = create(fn_run, x);
    if (id < 0)
        violation("harness", "too many threads");
    return id;
}
void join(int id) { join_tid(id); }
void yield_point()
{
    if (!on)
        return;
    me->rt++;
    point(me, 2);
    me->rt--;
}
} // namespace sim
using namespace sim;

// ================================================================ interposition
#define EX extern "C" __attribute__((visibility("default")))
#define PC ((u32)(uintptr_t)__builtin_return_address(0))

// ---- allocation
EX void *malloc(size_t n)
{
    void *p = xalloc(n, 16);
    if (!p)
        errno = ENOMEM;
    return p;
}
EX void free(void *p) { xfree(p, false); } // exception objects are reference counted inside the C++ runtime

EX void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = xalloc(n, 16);
    if (p)
        memset(p, 0, n);
    return p;
}
EX void *realloc(void *p, size_t n)
{
    if (!p)
        return malloc(n);
    if (!n) {
        xfree(p);
        return nullptr;
    }
    Hdr *h = (Hdr *)p - 1;
    void *q = xalloc(n, 16);
    if (!q)
        return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    xfree(p);
    return q;
}
EX void *memalign(size_t al, size_t n) { return xalloc(n, al); }
EX void *aligned_alloc(size_t al, size_t n) { return xalloc(n, al); }
EX int posix_memalign(void **out, size_t al, size_t n)
{
    *out = xalloc(n, al);
    return *out ? 0 : ENOMEM;
}
EX size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }
// the library's own calls of the C allocator (run.py renames them in its objects)
EX void *sim_malloc(size_t n) { return alloc_fails() ? nullptr : malloc(n); }
EX void *sim_calloc(size_t n, size_t m) { return alloc_fails() ? nullptr : calloc(n, m); }
EX char *sim_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char *)sim_malloc(n);
    if (p)
        memcpy(p, s, n);
    return p;
}
void *operator new(size_t n)
{
    if (alloc_fails())
        throw std::bad_alloc();
    void *p = xalloc(n, 16);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
    if (alloc_fails())
        return nullptr;
    return xalloc(n, 16);
}
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void *operator new(size_t n, std::align_val_t a)
{
    if (alloc_fails())
        throw std::bad_alloc();
    return xalloc(n, (size_t)a);
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { xfree(p); }
void operator delete[](void *p) noexcept { xfree(p); }
void operator delete(void *p, size_t) noexcept { xfree(p); }
void operator delete[](void *p, size_t) noexcept { xfree(p); }
void operator delete(void *p, std::align_val_t) noexcept { xfree(p); }
void operator delete[](void *p, std::align_val_t) noexcept { xfree(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { xfree(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { xfree(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { xfree(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { xfree(p); }

// ---- mutexes: state lives in the mutex itself (zero = unlocked), clocks in the side table
struct M { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static inline M *mm(pthread_mutex_t *m) { return (M *)m; }
static int mlock(pthread_mutex_t *pm, bool tryit, u64 deadline)
{
    M *m = mm(pm);
    if (!on) {
        if (m->lock && (m->kind & 3) != PTHREAD_MUTEX_RECURSIVE) {
            if (tryit)
                return EBUSY;
            rawmsg("sim: self deadlock outside simulation\n");
            die(73);
        }
        m->lock = 1;
        m->count++;
        return 0;
    }
    T *t = me;
    t->rt++;
    point(t, 2);
    if (trfd != -1) tr("mlock", (u64)pm, t->cstep | (u64)t->id << 40, (u64)m->lock << 8 | m->owner);
    int rc = 0;
    if (m->lock && m->owner == (int)t->id + 1) {
        if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            m->count++;
            t->rt--;
            return 0;
        }
        if (tryit) {
            t->rt--;
            return EBUSY;
        }
        if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) {
            t->rt--;
            return EDEADLK;
        }
    }
    while (m->lock) {
        if (tryit) {
            rc = EBUSY;
            break;
        }
        t->st = T_MUTEX;
        t->wobj = pm;
        t->deadline = deadline;
        t->timedout = false;
        block(t);
        t->deadline = 0;
        if (t->timedout) {
            rc = ETIMEDOUT;
            break;
        }
    }
    if (!rc) {
        m->lock = 1;
        m->owner = t->id + 1;
        m->count = 1;
        acq(t, pm);
    }
    t->rt--;
    return rc;
}
static int munlock(pthread_mutex_t *pm, bool pt = true)
{
    M *m = mm(pm);
    if (!on) {
        if (m->count)
            m->count--;
        if (!m->count)
            m->lock = m->owner = 0;
        return 0;
    }
    T *t = me;
    if (m->owner != (int)t->id + 1) {
        if (m->owner)
            violation("bad_unlock", "thread %u unlocks a mutex owned by thread %d", t->id, m->owner - 1);
    }
    t->rt++;
    if (--m->count == 0) {
        rel(t, pm);
        m->lock = 0;
        m->owner = 0;
        for (int i = 0; i < nth; i++)
            if (th[i].st == T_MUTEX && th[i].wobj == pm) {
                th[i].st = T_RUN;
                th[i].deadline = 0;
            }
        if (pt)
            point(t, 2);
    }
    t->rt--;
    return 0;
}
static u64 abs_to_sim(clockid_t c, const struct timespec *ts)
{
    u64 a = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
    u64 ref = c == CLOCK_MONOTONIC ? epoch0 + now : wall_ns();
    return a <= ref ? now + 1 : now + (a - ref);
}
EX int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    memset(m, 0, sizeof *m);
    int k = 0;
    if (a)
        pthread_mutexattr_gettype(a, &k);
    mm(m)->kind = k;
    return 0;
}
EX int pthread_mutex_destroy(pthread_mutex_t *m) { memset(m, 0, sizeof *m); return 0; }
EX int pthread_mutex_lock(pthread_mutex_t *m) { return mlock(m, false, 0); }
EX int pthread_mutex_trylock(pthread_mutex_t *m) { return mlock(m, true, 0); }
EX int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return mlock(m, false, abs_to_sim(CLOCK_REALTIME, ts)); }
EX int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { return mlock(m, false, abs_to_sim(c, ts)); }
EX int pthread_mutex_unlock(pthread_mutex_t *m) { return munlock(m); }

// ---- condition variables
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline)
{
    if (!on) {
        rawmsg("sim: cond wait outside simulation\n");
        die(73);
    }
    T *t = me;
    t->rt++;
    point(t, 2);
    unsigned cnt = mm(m)->count;
    mm(m)->count = 1;
    munlock(m, false);
    int rc = 0;
    if (!(cfg.p_spurious > 0 || spec.replay) || !plan(F_SPURIOUS, cfg.p_spurious, 0, nullptr)) {
        t->st = T_COND;
        t->wobj = c;
        t->deadline = deadline;
        t->timedout = false;
        block(t);
        t->deadline = 0;
        if (t->timedout)
            rc = ETIMEDOUT;
        acq(t, c);
    } else {
        sh->fired[F_SPURIOUS]++;
        point(t, 3);
    }
    t->rt--;
    mlock(m, false, 0);
    mm(m)->count = cnt;
    return rc;
}
static int csignal(pthread_cond_t *c, bool all)
{
    if (!on)
        return 0;
    T *t = me;
    t->rt++;
    point(t, 2);
    rel(t, c);
    // which waiter: first in thread order starting after a rotating position
    u32 k = (u32)(mix2((u64)(uintptr_t)t->cstep, t->id) % (u32)(nth ? nth : 1));
    for (int i = 0; i < nth; i++) {
        T *o = &th[(i + k) % nth];
        if (o->st == T_COND && o->wobj == c) {
            o->st = T_RUN;
            o->deadline = 0;
            if (!all)
                break;
        }
    }
    point(t, 2);
    t->rt--;
    return 0;
}
EX int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
EX int pthread_cond_destroy(pthread_cond_t *) { return 0; }
EX int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, 0); }
EX int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cwait(c, m, abs_to_sim(CLOCK_REALTIME, ts)); }
EX int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return cwait(c, m, abs_to_sim(k, ts)); }
EX int pthread_cond_signal(pthread_cond_t *c) { return csignal(c, false); }
EX int pthread_cond_broadcast(pthread_cond_t *c) { return csignal(c, true); }

// ---- rwlocks: readers counted in the lock
struct RW { int writer; int readers; };
static int rwlock(pthread_rwlock_t *p, bool w, bool tryit, u64 dl)
{
    RW *r = (RW *)p;
    if (!on) {
        if (w)
            r->writer = 1;
        else
            r->readers++;
        return 0;
    }
    T *t = me;
    t->rt++;
    point(t, 2);
    int rc = 0;
    while (r->writer || (w && r->readers)) {
        if (tryit) {
            rc = EBUSY;
            break;
        }
        t->st = T_MUTEX;
        t->wobj = p;
        t->deadline = dl;
        t->timedout = false;
        block(t);
        t->deadline = 0;
        if (t->timedout) {
            rc = ETIMEDOUT;
            break;
        }
    }
    if (!rc) {
        if (w)
            r->writer = t->id + 1;
        else
            r->readers++;
        acq(t, p);
        if (w)
            acq(t, (char *)p + 1);
    }
    t->rt--;
    return rc;
}
EX int pthread_rwlock_init(pthread_rwlock_t *p, const pthread_rwlockattr_t *) { memset(p, 0, sizeof *p); return 0; }
EX int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
EX int pthread_rwlock_rdlock(pthread_rwlock_t *p) { return rwlock(p, false, false, 0); }
EX int pthread_rwlock_wrlock(pthread_rwlock_t *p) { return rwlock(p, true, false, 0); }
EX int pthread_rwlock_tryrdlock(pthread_rwlock_t *p) { return rwlock(p, false, true, 0); }
EX int pthread_rwlock_trywrlock(pthread_rwlock_t *p) { return rwlock(p, true, true, 0); }
EX int pthread_rwlock_timedrdlock(pthread_rwlock_t *p, const struct timespec *ts) { return rwlock(p, false, false, abs_to_sim(CLOCK_REALTIME, ts)); }
EX int pthread_rwlock_timedwrlock(pthread_rwlock_t *p, const struct timespec *ts) { return rwlock(p, true, false, abs_to_sim(CLOCK_REALTIME, ts)); }
EX int pthread_rwlock_clockrdlock(pthread_rwlock_t *p, clockid_t c, const struct timespec *ts) { return rwlock(p, false, false, abs_to_sim(c, ts)); }
EX int pthread_rwlock_clockwrlock(pthread_rwlock_t *p, clockid_t c, const struct timespec *ts) { return rwlock(p, true, false, abs_to_sim(c, ts)); }
EX int pthread_rwlock_unlock(pthread_rwlock_t *p)
{
    RW *r = (RW *)p;
    bool w = r->writer != 0;
    if (w)
        r->writer = 0;
    else if (r->readers)
        r->readers--;
    if (!on)
        return 0;
    T *t = me;
    t->rt++;
    rel(t, w ? (void *)p : (void *)((char *)p + 1));
    for (int i = 0; i < nth; i++)
        if (th[i].st == T_MUTEX && th[i].wobj == p) {
            th[i].st = T_RUN;
            th[i].deadline = 0;
        }
    point(t, 2);
    t->rt--;
    return 0;
}

// ---- once and function-local statics
EX int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    volatile int *s = (volatile int *)o;
    if (!on) {
        if (*s != 2) {
            fn();
            *s = 2;
        }
        return 0;
    }
    T *t = me;
    t->rt++;
    point(t, 2);
    while (*s == 1) {
        t->st = T_GUARD;
        t->wobj = o;
        block(t);
    }
    if (*s == 2) {
        acq(t, o);
        t->rt--;
        return 0;
    }
    *s = 1;
    t->rt--;
    try {
        fn();
    } catch (...) {
        *s = 0;
        for (int i = 0; i < nth; i++)
            if (th[i].st == T_GUARD && th[i].wobj == o)
                th[i].st = T_RUN;
        throw;
    }
    t->rt++;
    *s = 2;
    rel(t, o);
    for (int i = 0; i < nth; i++)
        if (th[i].st == T_GUARD && th[i].wobj == o)
            th[i].st = T_RUN;
    point(t, 2);
    t->rt--;
    return 0;
}
EX int __cxa_guard_acquire(u64 *g)
{
    volatile u8 *b = (volatile u8 *)g;
    if (!on) {
        return b[0] ? 0 : 1;
    }
    T *t = me;
    t->rt++;
    point(t, 2);
    while (!b[0] && b[1]) {
        if (b[2] == t->id + 1)
            violation("recursive_static_init", "recursive initialisation of a function-local static");
        t->st = T_GUARD;
        t->wobj = g;
        block(t);
    }
    int r = 0;
    if (b[0])
        acq(t, g);
    else {
        b[1] = 1;
        b[2] = t->id + 1;
        r = 1;
    }
    t->rt--;
    return r;
}
static void guard_done(u64 *g, bool ok)
{
    volatile u8 *b = (volatile u8 *)g;
    b[1] = b[2] = 0;
    if (ok)
        b[0] = 1;
    if (!on)
        return;
    T *t = me;
    t->rt++;
    rel(t, g);
    for (int i = 0; i < nth; i++)
        if (th[i].st == T_GUARD && th[i].wobj == g)
            th[i].st = T_RUN;
    point(t, 2);
    t->rt--;
}
EX void __cxa_guard_release(u64 *g) { guard_done(g, true); }
EX void __cxa_guard_abort(u64 *g) { guard_done(g, false); }

// ---- threads
EX int pthread_create(pthread_t *pt, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    if (!on) {
        rawmsg("sim: thread creation outside simulation\n");
        die(74);
    }
    T *t = me;
    t->rt++;
    point(t, 2);
    if ((cfg.p_thread_fail > 0 || spec.replay) && plan(F_THREAD_CREATE, cfg.p_thread_fail, 0, nullptr)) {
        sh->fired[F_THREAD_CREATE]++;
        t->rt--;
        return EAGAIN;
    }
    int id = create(fn, arg);
    t->rt--;
    if (id < 0)
        return EAGAIN;
    th[id].lib = me->lib; // library threads run library code
    *pt = (pthread_t)(0x51000 + id);
    me->rt++;
    point(me, 2);
    me->rt--;
    return 0;
}
EX int pthread_join(pthread_t p, void **ret)
{
    int id = (int)((u64)p - 0x51000);
    if (!on || id < 0 || id >= nth)
        return ESRCH;
    if (id == (int)me->id)
        return EDEADLK;
    join_tid(id);
    if (ret)
        *ret = th[id].ret;
    return 0;
}
EX int pthread_detach(pthread_t) { return 0; }
EX pthread_t pthread_self(void) { return me ? (pthread_t)(0x51000 + me->id) : (pthread_t)0x51000; }
EX int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
EX int sched_yield(void)
{
    if (!on)
        return 0;
    me->rt++;
    point(me, 3);
    me->rt--;
    return 0;
}
static void sim_sleep(u64 ns)
{
    if (!on) { // the runner, outside any simulation
        struct timespec ts = {(time_t)(ns / 1000000000ull), (long)(ns % 1000000000ull)};
        RAW(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
        return;
    }
    T *t = me;
    t->rt++;
    t->st = T_SLEEP;
    t->deadline = now + (ns ? ns : 1);
    t->timedout = false;
    block(t);
    t->deadline = 0;
    t->rt--;
}
EX int nanosleep(const struct timespec *r, struct timespec *) { sim_sleep((u64)r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
EX int clock_nanosleep(clockid_t c, int fl_, const struct timespec *r, struct timespec *)
{
    if (fl_ & TIMER_ABSTIME)
        sim_sleep(abs_to_sim(c, r) - now);
    else
        sim_sleep((u64)r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
}
EX int usleep(useconds_t u) { sim_sleep((u64)u * 1000); return 0; }
EX unsigned sleep(unsigned s) { sim_sleep((u64)s * 1000000000ull); return 0; }

// ---- raw syscall(): futexes of std::future, getrandom, gettid
EX long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom) {
        return entropy_read((void *)a, (size_t)b);
    }
    if (on && n == SYS_gettid)
        return 1000 + self();
    if (on && n == SYS_futex) {
        T *t = me;
        int op = (int)b & 127;
        op &= ~FUTEX_CLOCK_REALTIME;
        t->rt++;
        long rc = 0;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(t, 2);
            if (*(volatile int *)a != (int)c) {
                errno = EAGAIN;
                rc = -1;
            } else {
                u64 dl = 0;
                if (d) {
                    const struct timespec *ts = (const struct timespec *)d;
                    if (op == FUTEX_WAIT)
                        dl = now + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec + 1;
                    else
                        dl = abs_to_sim((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                }
                t->st = T_FUTEX;
                t->wobj = (void *)a;
                t->deadline = dl;
                t->timedout = false;
                block(t);
                t->deadline = 0;
                acq(t, (void *)a);
                if (t->timedout) {
                    errno = ETIMEDOUT;
                    rc = -1;
                }
            }
        } else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            rel(t, (void *)a);
            long k = 0;
            for (int i = 0; i < nth && k < c; i++)
                if (th[i].st == T_FUTEX && th[i].wobj == (void *)a) {
                    th[i].st = T_RUN;
                    th[i].deadline = 0;
                    k++;
                }
            rc = k;
            point(t, 2);
        }
        t->rt--;
        return rc;
    }
    long r = RAW(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---- clocks
EX int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!on) {
        long r = RAW(SYS_clock_gettime, c, (long)ts);
        return r < 0 ? -1 : 0;
    }
    u64 v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wall_ns() : epoch0 + now;
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
}
EX time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
EX int gettimeofday(struct timeval *tv, void *)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EX int timespec_get(struct timespec *ts, int base) { clock_gettime(CLOCK_REALTIME, ts); return base; }
EX clock_t clock(void) { return (clock_t)(now / 1000); }
EX int get_nprocs(void) { return cfg.ncpu; }

// ---- randomness devices
static const int FAKEFD = 7777;
static bool is_rnd(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
static int do_open(int dfd, const char *p, int fl_, int mode)
{
    if (on && is_rnd(p)) {
        if (rng_fault_now(true)) {
            errno = EMFILE;
            return -1;
        }
        return FAKEFD;
    }
    long r = RAW(SYS_openat, dfd, (long)p, fl_, mode);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return (int)r;
}
#define OPENBODY(dfd) va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); return do_open(dfd, p, f, m);
EX int open(const char *p, int f, ...) { OPENBODY(AT_FDCWD) }
EX int open64(const char *p, int f, ...) { OPENBODY(AT_FDCWD) }
EX int openat(int d, const char *p, int f, ...) { OPENBODY(d) }
EX int openat64(int d, const char *p, int f, ...) { OPENBODY(d) }
EX int __open_2(const char *p, int f) { return do_open(AT_FDCWD, p, f, 0); }
EX int __open64_2(const char *p, int f) { return do_open(AT_FDCWD, p, f, 0); }
EX ssize_t read(int fd, void *b, size_t n)
{
    if (fd == FAKEFD)
        return entropy_read(b, n);
    long r = RAW(SYS_read, fd, (long)b, n);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
EX ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
EX int close(int fd)
{
    if (fd == FAKEFD)
        return 0;
    long r = RAW(SYS_close, fd);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return 0;
}
EX ssize_t getrandom(void *b, size_t n, unsigned) { return entropy_read(b, n); }
EX int getentropy(void *b, size_t n)
{
    long r = entropy_read(b, n);
    if (r != (long)n) {
        errno = EIO;
        return -1;
    }
    return 0;
}
EX unsigned arc4random(void) { unsigned v; entropy(&v, sizeof v); return v; }
EX void arc4random_buf(void *b, size_t n) { entropy(b, n); }
std::random_device::result_type std::random_device::_M_getval() { unsigned v; sim::entropy(&v, sizeof v); return v; }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}

// ---- memory functions called by instrumented code (linker --wrap)
extern "C" {
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
}
namespace sim { static void raw_fill(void *p, size_t n) { __real_memset(p, 0xDD, n); } }
extern "C" {
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    range_access((void *)s, n, false, PC);
    range_access(d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    range_access((void *)s, n, false, PC);
    range_access(d, n, true, PC);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
    range_access(d, n, true, PC);
    return __real_memset(d, c, n);
}
}

// ---- compiler instrumentation callbacks
EX void __tsan_init() {}
EX void __tsan_func_entry(void *) {}
EX void __tsan_func_exit() {}
#define ACC(n) \
    EX void __tsan_read##n(void *p) { access(p, n, false, PC); } \
    EX void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    EX void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
    EX void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
    EX void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
    EX void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
    EX void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
    EX void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EX void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }
EX void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
EX void __tsan_read_range(void *p, size_t n) { range_access(p, n, false, PC); }
EX void __tsan_write_range(void *p, size_t n) { range_access(p, n, true, PC); }

static inline T *async_enter(const volatile void *p)
{
    if (!on)
        return nullptr;
    T *t = me;
    if (!t || t->rt)
        return nullptr;
    t->rt++;
    point(t, t->lib ? 2 : 0);
    acq(t, (const void *)p);
    return t;
}
static inline void async_leave(T *t, const volatile void *p)
{
    if (!t)
        return;
    rel(t, (const void *)p);
    t->rt--;
}
#define AT(bits, ty) \
    EX ty __tsan_atomic##bits##_load(const volatile ty *p, int) { T *t = async_enter(p); ty v = __atomic_load_n(p, 5); if (t) t->rt--; return v; } \
    EX void __tsan_atomic##bits##_store(volatile ty *p, ty v, int) { T *t = async_enter(p); __atomic_store_n(p, v, 5); async_leave(t, p); } \
    EX ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int) { T *t = async_enter(p); ty r = __atomic_exchange_n(p, v, 5); async_leave(t, p); return r; } \
    EX ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int) { T *t = async_enter(p); ty r = __atomic_fetch_add(p, v, 5); async_leave(t, p); return r; } \
    EX ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int) { T *t = async_enter(p); ty r = __atomic_fetch_sub(p, v, 5); async_leave(t, p); return r; } \
    EX ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int) { T *t = async_enter(p); ty r = __atomic_fetch_and(p, v, 5); async_leave(t, p); return r; } \
    EX ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int) { T *t = async_enter(p); ty r = __atomic_fetch_or(p, v, 5); async_leave(t, p); return r; } \
    EX ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int) { T *t = async_enter(p); ty r = __atomic_fetch_xor(p, v, 5); async_leave(t, p); return r; } \
    EX ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int) { T *t = async_enter(p); ty r = __atomic_fetch_nand(p, v, 5); async_leave(t, p); return r; } \
    EX int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int, int) { T *t = async_enter(p); int r = __atomic_compare_exchange_n(p, c, v, false, 5, 5); async_leave(t, p); return r; } \
    EX int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int, int) { T *t = async_enter(p); int r = __atomic_compare_exchange_n(p, c, v, false, 5, 5); async_leave(t, p); return r; } \
    EX ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int, int) { T *t = async_enter(p); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); async_leave(t, p); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EX void __tsan_atomic_thread_fence(int) {}
EX void __tsan_atomic_signal_fence(int) {}
