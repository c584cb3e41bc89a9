// The "polling place" workload shared by most properties: stations on several threads encrypt
// ballots through every interface while buffers are filled, stopped and emptied and faults strike.
#pragma once
#include "scen.h"
namespace scen {
using namespace w;
using orc::Bal;
using namespace sim;

enum Probe {
    PR_RACE = 0, PR_REFUSED, PR_FAULT_RETRY, PR_PRECOMP_SEL, PR_PLAIN_SEL, PR_MIXED_BALLOT, PR_OVERVOTE, PR_UNDERVOTE, PR_WRITEIN, PR_LONG_EXT,
    PR_COMPACT, PR_CAPI, PR_NONCE_GIVEN, PR_BALLOTS, PR_RELOAD, PR_EXPAND, PR_RESTART, PR_TAMPER_REFUSED, PR_TAMPER_INVALID, PR_MULTI_STATION,
    PR_CHAIN_LINKS, PR_CHAIN_AFTER_FAIL, PR_BUF_FULL, PR_BUF_EMPTY, PR_BUF_STOP, PR_BUF_DRAW, PR_TABLE_COLD, PR_TALLY, PR_SPOILED, PR_REDELIVERED,
    PR_SECRETS, PR_OUTPUTS, PR_TASKS, PR_ITEMS, PR_HASHES, PR_MISMATCH, PR_REENC, PR_RNG_FAIL_CLOSED, PR_RNG_OK_AFTER, PR_LEADZERO, PR_TORN_REFUSED, PR_TORN_LOADED,
    PR_FIRST_USE, PR_SHARED_READ, PR_DEVICES, PR_SUBMITTED, PR_STATUS_ERR, PR_ALLOC_HIT, PR_OPS, PR_N
};
struct Res {
    bool ok = false, standard = true, nomem = false, invalid = false;
    S err;
};
template <class F> Res lib(F f)
{
    Res r;
    try {
        Lib l;
        f();
        r.ok = true;
    } catch (const std::bad_alloc &e) {
        r.err = "bad_alloc";
        r.nomem = true;
    } catch (const std::invalid_argument &e) {
        r.err = e.what();
        r.invalid = true;
    } catch (const std::exception &e) {
        r.err = e.what();
    } catch (...) {
        r.standard = false;
        r.err = "non-standard exception";
    }
    return r;
}
enum Api { A_MED, A_MED_NV, A_MED_COMPACT, A_MED_COMPACT_NV, A_FREE, A_FREE_NONCE, A_COMPACT, A_COMPACT_NONCE, A_C_MED, A_C_MED_V, A_C_MED_COMPACT, A_C_MED_COMPACT_V, A_C_FREE, A_C_FREE_NONCE, A_C_COMPACT, A_C_COMPACT_NONCE, A_N };
inline bool is_med(int a) { return a == A_MED || a == A_MED_NV || a == A_MED_COMPACT || a == A_MED_COMPACT_NV || (a >= A_C_MED && a <= A_C_MED_COMPACT_V); }
inline bool is_compact(int a) { return a == A_MED_COMPACT || a == A_MED_COMPACT_NV || a == A_COMPACT || a == A_COMPACT_NONCE || a == A_C_MED_COMPACT || a == A_C_MED_COMPACT_V || a == A_C_COMPACT || a == A_C_COMPACT_NONCE; }
inline bool is_capi(int a) { return a >= A_C_MED; }
inline bool is_nonce(int a) { return a == A_FREE_NONCE || a == A_COMPACT_NONCE || a == A_C_FREE_NONCE || a == A_C_COMPACT_NONCE; }
inline bool verifies(int a) { return a == A_MED || a == A_MED_COMPACT || a == A_C_MED_V || a == A_C_MED_COMPACT_V; }

struct Emitted {
    u32 op = 0;
    int api = 0, dev = -1, tid = 0;
    VBal v;
    Bal b;                 // extracted at emission (compact: seed, code, ts, nonce only)
    bool compact = false, gave_nonce = false, buffers = false;
    Z seed, nonce;         // what the caller gave
    u64 ts = 0, t0 = 0, t1 = 0;
    UP<eg::CiphertextBallot> obj;
    UP<eg::CompactCiphertextBallot> cobj;
    bool after_fail = false;
};
struct PlaceOpt {
    int min_threads = 1, max_threads = 3, max_ballots = 3; // ballots per station
    int max_dev = 2;
    double p_buffers = 0.7, p_filler = 0.5;
    double p_alloc = 0, p_rng = 0, p_bad = 0, p_clock = 0.15;
    unsigned apis = (1u << A_N) - 1;
    GenOpt g;
    BalOpt b;
    double p_verify = 0.3; // of the verifying interfaces
    bool refusal_fatal = false, keep_objects = true;
    bool extract = true;
};
struct Place {
    Rng r;
    PlaceOpt o;
    Election e;
    struct Dev { u64 uuid, sess, launch; S loc; UP<eg::EncryptionDevice> d; UP<eg::EncryptionMediator> m; };
    V<Dev> devs;
    struct Op { u32 id; int api, dev; VBal v; Z nonce, seed; u64 ts; bool verify; bool bad; int badkind; };
    V<V<Op>> work; // per station
    struct Fill { u32 id; int what; u32 size; };
    V<Fill> fill;
    bool buffers = false, prefilled = false;
    u32 prefill = 0;
    V<Emitted> out;
    u32 nops = 0, base = 0; // base: added to the contexts of this incarnation
    std::function<bool(u32)> skip; // operations already durable
    u64 fail_seq = 0;
    V<u64> last_fail_by_dev;
    std::function<void(Emitted &)> on_emit; // host scope
    std::function<void(Place &, Op &, const Res &, bool faulted)> on_fail;

    void plan_all(Rng &rng, const PlaceOpt &opt); // model side
    void make_devices();
    void open();                                  // library side (thread 0)
    void run_stations();                          // spawn, run, join
    Res encrypt(Op &op, Emitted &em, double pa, double pr);             // one call, library scope
    void station(int t);
    void filler();
};
// stores and reloads an emitted ballot in the given format, returns the reloaded one (nullptr and err on failure)
enum Fmt { FM_JSON, FM_BSON, FM_MSGPACK, FM_N };
S store(const eg::CiphertextBallot &b, int fm, bool nonces);
S store(const eg::SubmittedBallot &b, int fm);
S store(const eg::CompactCiphertextBallot &b, int fm);
S store(const eg::PlaintextBallot &b, int fm);
UP<eg::CiphertextBallot> load_ballot(const S &s, int fm);
UP<eg::SubmittedBallot> load_submitted(const S &s, int fm);
UP<eg::CompactCiphertextBallot> load_compact(const S &s, int fm);
UP<eg::PlaintextBallot> load_plain(const S &s, int fm);
void arm_faults(double p_alloc, double p_rng);
bool disarm_faults();
void warm_tables(const Z &K);
u64 log_pos(u64 arg); // log-uniform position from a fault argument
Rng gen(u64 salt);
void begin(Place &p, Rng g, const PlaceOpt &o, u32 inc);
void describe(Place &p);
Z nonce_at(const Z &seed, const Z &header, u64 i);
void count_precomp(const Place &p, const Bal &b);
void expand_all(Place &p, bool fatal, const std::function<void(Emitted &, const Bal &, eg::CiphertextBallot &)> &f);

// scenarios
void p01(u32), p02(u32), p03(u32), p04(u32), p05(u32), p06(u32), p07(u32), p08(u32), p09(u32), p10(u32), p11(u32), p12(u32), p13(u32), p14(u32, int), p15(u32), p16(u32), p17(u32), p18(u32);
} // namespace scen
