// Deterministic simulation runtime: scheduler, clock, randomness, allocator, faults, race detector.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

u64 mix(u64 x);
u64 mix2(u64 a, u64 b);
struct Rng {
    u64 s = 0;
    Rng() {}
    explicit Rng(u64 seed) : s(mix(seed ^ 0x9e3779b97f4a7c15ull)) {}
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    u64 logu(u64 hi) // log-uniform in [1,hi]
    {
        int bits = 0;
        while ((1ull << bits) < hi && bits < 62)
            bits++;
        u64 v = 1 + below(1ull << below(bits + 1));
        return v > hi ? hi : v;
    }
};

enum Fault {
    F_ALLOC, F_RNG_OPEN, F_RNG_SHORT, F_RNG_EINTR, F_RNG_EIO, F_RNG_EOF, F_CLOCK_JUMP, F_CLOCK_STALL,
    F_SPURIOUS, F_THREAD_CREATE, F_THREAD_STALL, F_CRASH, F_DISK_TORN, F_DISK_LOST, F_DISK_FLIP,
    F_DISK_DUP, F_MSG_DROP, F_MSG_DUP, F_MSG_REORDER, F_TAMPER, F_BAD_INPUT, F_MISMATCH, F_BUF_STATE, F_N
};
extern const char *fault_name[F_N];

enum : u32 { CTX_NONE = 0xffffffffu, IDLE = 0xC0000000u };
struct SchedEnt { u32 inc, tid, ctx, cstep, to; };
struct FaultEnt { u32 kind, ctx, occ, tid; u64 arg; };

enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_CUTOFF = 3, ST_CRASHED_SIM = 4 };
const u32 MAXSCHED = 40000, MAXFAULT = 4000, NPROBE = 96;
struct Shared {
    volatile u32 status;
    u32 inc; // current incarnation
    char vclass[160];
    char vmsg[4000];
    u64 digest, ilv, steps, switches, simns, evals, ops;
    u64 fired[F_N], armed[F_N];
    u64 probe[NPROBE];
    u32 nsched, sched_over, nfault, nthreads;
    char sample[600];
    SchedEnt sched[MAXSCHED];
    FaultEnt fault[MAXFAULT];
};
extern Shared *sh; // mapped shared between runner and the simulated process

struct Spec { // everything that determines one execution
    std::string property;
    u64 seed = 0;
    bool warm = false;
    bool replay = false;
    std::vector<u32> drop;         // dropped workload operations
    std::vector<SchedEnt> sched;   // replay: the context switches
    std::vector<FaultEnt> faults;  // replay: the faults
};
extern Spec spec;
bool dropped(u32 op);

// --- run control (inside the simulated process)
struct Config {
    bool race_fatal = false;
    bool poison = true;
    u64 step_cap = 400000000ull;
    bool cap_is_violation = true;
    double p_spurious = 0, p_thread_fail = 0, p_stall = 0;
    int ncpu = 8;
    u64 quantum = 1500000;
};
extern Config cfg;
extern bool parent_mode; // allocate outside the heap the executions use
void start(u32 incarnation); // become thread 0 of a simulated process
void stop();                 // leave simulation (single thread again)
bool active();
int spawn(std::function<void()> fn, const char *name = "");
void join(int tid);
void yield_point();
u32 self();
void ctx(u32 c); // enter operation context c on this thread (resets per-op counters)
u64 now_ns();
void clock_jump(int64_t ns);
void clock_stall(bool on);
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok();
void event(u64 v);
void event(const void *p, size_t n);
void eval(u64 n = 1);
void probe(int i, u64 n = 1);
void sample(const std::string &s);

// fault planning: should fault k strike at this opportunity? (record: drawn; replay: listed)
bool plan(Fault k, double p, u64 maxarg, u64 *arg);
void fired(Fault k);
extern Rng frng; // fault decisions
void arm_alloc(u64 nth);  // the nth allocation by the library in this context fails once
bool disarm_alloc();      // true if it fired
u64 alloc_count();        // library allocations since arm/ctx
void arm_rng(Fault k, u64 nth, bool sticky = false);
bool disarm_rng();
u64 rng_reads();
void arm_crash(u64 nth_step); // the process dies at its nth step from now
bool disarm_crash();
u64 cur_step();
struct RngRec { u64 off; u32 len; };
// all bytes the simulated OS random source delivered successfully so far
const std::vector<u8> &rng_log();
u64 rng_success();

struct Lib { // scope: this thread executes library code
    Lib();
    ~Lib();
};
struct Host { // scope: back in harness code (callbacks)
    int saved;
    Host();
    ~Host();
};
u64 live_bytes();
} // namespace sim
