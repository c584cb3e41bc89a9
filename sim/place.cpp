#include "place.h"
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/election.h>
#include <electionguard/encrypt.h>
#include <electionguard/manifest.h>
}
#include <algorithm>
namespace scen {
static const char *PN[PR_N] = {
  "nonfatal_races", "refused_without_fault", "fault_then_retry", "selections_from_buffers", "selections_on_the_spot", "ballots_mixing_both", "overvoted_contests", "undervoted_contests", "contests_with_write_ins", "extended_data_over_capacity",
  "compact_encryptions", "c_interface_calls", "caller_given_nonces", "ballots_emitted", "reloads", "expansions", "restarts", "tampering_refused_at_load", "tampering_found_invalid", "runs_with_several_stations",
  "chain_links_checked", "chain_links_after_failure", "buffer_full_reached", "buffer_emptied", "buffer_stopped", "buffer_draws", "cold_table_uses", "tallies_checked", "spoiled_ballots", "redelivered_ballots",
  "secrets_searched", "outputs_searched", "pool_tasks", "queue_items", "hashes_compared", "mismatches_refused", "reencryptions_compared", "rng_failed_closed", "rng_ok_despite_fault", "values_with_leading_zero", "torn_records_refused", "torn_records_loaded",
  "first_uses_overlapping", "shared_reads", "device_records", "submitted_ballots", "error_statuses", "allocation_failures_hit", "operations"};
const char *probe_name(u32 i) { return i < PR_N ? PN[i] : nullptr; }
void init() {}
Rng gen(u64 salt) { return Rng(mix2(spec.seed, 0xabc000 + salt)); }
u64 log_pos(u64 a) { return 1 + (a >> 8) % (1ull << ((a & 255) % 15)); }

void arm_faults(double pa, double pr)
{
    u64 arg;
    if (plan(F_ALLOC, pa, 1ull << 40, &arg))
        arm_alloc(log_pos(arg));
    static const Fault K[] = {F_RNG_OPEN, F_RNG_SHORT, F_RNG_EINTR, F_RNG_EIO, F_RNG_EOF};
    if (pr > 0)
        for (Fault k : K)
            if (plan(k, pr / 5, 1ull << 40, &arg)) {
                arm_rng(k, 1 + (arg >> 8) % (1ull << ((arg & 255) % 6)), (arg >> 30) & 1);
                break;
            }
}
bool disarm_faults()
{
    bool a = disarm_alloc();
    bool b = disarm_rng();
    return a || b;
}
void warm_tables(const Z &K)
{
    // builds the fixed base tables before the simulation starts
    auto one = mkq(3);
    eg::g_pow_p(*one);
    auto k = mkp(K);
    k->setIsFixedBase(true);
    eg::pow_mod_p(*k, *one);
}
S store(const eg::CiphertextBallot &b, int f, bool n) { return f == FM_JSON ? b.toJson(n) : str(f == FM_BSON ? b.toBson(n) : b.toMsgPack(n)); }
S store(const eg::SubmittedBallot &b, int f) { return f == FM_JSON ? b.toJson() : str(f == FM_BSON ? b.toBson() : b.toMsgPack()); }
S store(const eg::CompactCiphertextBallot &b, int f) { return f == FM_JSON ? b.toJson() : str(f == FM_BSON ? b.toBson() : b.toMsgPack()); }
S store(const eg::PlaintextBallot &b, int f) { return f == FM_JSON ? b.toJson() : str(f == FM_BSON ? b.toBson() : b.toMsgPack()); }
UP<eg::CiphertextBallot> load_ballot(const S &s, int f) { return f == FM_JSON ? eg::CiphertextBallot::fromJson(s) : f == FM_BSON ? eg::CiphertextBallot::fromBson(vec(s)) : eg::CiphertextBallot::fromMsgPack(vec(s)); }
UP<eg::SubmittedBallot> load_submitted(const S &s, int f) { return f == FM_JSON ? eg::SubmittedBallot::fromJson(s) : f == FM_BSON ? eg::SubmittedBallot::fromBson(vec(s)) : eg::SubmittedBallot::fromMsgPack(vec(s)); }
UP<eg::CompactCiphertextBallot> load_compact(const S &s, int f) { return f == FM_JSON ? eg::CompactCiphertextBallot::fromJson(s) : f == FM_BSON ? eg::CompactCiphertextBallot::fromBson(vec(s)) : eg::CompactCiphertextBallot::fromMsgPack(vec(s)); }
UP<eg::PlaintextBallot> load_plain(const S &s, int f) { return f == FM_JSON ? eg::PlaintextBallot::fromJson(s) : f == FM_BSON ? eg::PlaintextBallot::fromBson(vec(s)) : eg::PlaintextBallot::fromMsgPack(vec(s)); }

void Place::plan_all(Rng &rng, const PlaceOpt &opt)
{
    r = rng;
    o = opt;
    e = gen_election(r, o.g);
    int nt = (int)r.range(o.min_threads, o.max_threads);
    int nd = (int)r.range(1, o.max_dev);
    for (int i = 0; i < nd; i++) {
        Dev d;
        d.uuid = r.chance(0.2) ? r.next() >> 1 : 1000 + r.below(1000);
        d.sess = r.chance(0.1) ? 0 : r.chance(0.2) ? r.next() >> 1 : r.below(100000);
        d.launch = r.chance(0.2) ? r.next() >> 1 : r.below(100000);
        d.loc = "polls-" + gen_text(r, o.g.wild_text, 8);
        devs.push_back(std::move(d));
    }
    last_fail_by_dev.assign(nd, 0);
    V<int> apis;
    for (int a = 0; a < A_N; a++)
        if (o.apis >> a & 1)
            apis.push_back(a);
    bool one_api = r.chance(0.2);
    int api0 = apis[r.below(apis.size())];
    work.resize(nt);
    u32 bn = 0;
    for (int t = 0; t < nt; t++) {
        int nb = (int)r.range(1, o.max_ballots);
        for (int i = 0; i < nb; i++) {
            Op op;
            op.id = nops++;
            op.api = one_api ? api0 : apis[r.below(apis.size())];
            op.dev = (int)r.below(nd);
            op.v = gen_ballot(r, e.m, "ballot-" + std::to_string(bn++) + (r.chance(0.2) ? gen_text(r, o.g.wild_text, 6) : ""), o.b);
            op.nonce = orc::modq(orc::from_bytes(orc::sha256("nonce" + std::to_string(r.next()))));
            op.seed = orc::modq(orc::from_bytes(orc::sha256("seed" + std::to_string(r.next()))));
            op.ts = r.chance(0.5) ? 0 : 1600000000 + r.below(100000000);
            op.verify = r.chance(o.p_verify);
            if (!op.verify)
                op.api = op.api == A_MED ? A_MED_NV : op.api == A_MED_COMPACT ? A_MED_COMPACT_NV : op.api == A_C_MED_V ? A_C_MED : op.api == A_C_MED_COMPACT_V ? A_C_MED_COMPACT : op.api;
            op.bad = r.chance(o.p_bad);
            op.badkind = (int)r.below(4);
            work[t].push_back(op);
        }
    }
    buffers = r.chance(o.p_buffers);
    if (buffers) {
        prefill = (u32)(r.chance(0.3) ? 0 : r.range(1, 10));
        if (r.chance(o.p_filler))
            for (int i = 0, n = (int)r.range(1, 5); i < n; i++)
                fill.push_back({nops++, (int)r.below(8), (u32)r.range(1, 6)});
        if (!prefill && fill.empty())
            buffers = false;
    }
    sh->ops = nops;
}
void Place::make_devices()
{
    for (auto &d : devs) {
        d.d = std::make_unique<eg::EncryptionDevice>(d.uuid, d.sess, d.launch, d.loc);
        d.m = std::make_unique<eg::EncryptionMediator>(*e.im, *e.ctx, *d.d);
    }
}
void Place::open()
{
    bool hexm = r.chance(0.3), fixed = r.chance(0.5);
    Res x = lib([&] {
        build(e, fixed, hexm);
        make_devices();
        if (buffers && prefill) {
            eg::PrecomputeBufferContext::init(prefill);
            eg::PrecomputeBufferContext::populate(*e.ctx->getElGamalPublicKey());
        }
    });
    if (!x.ok)
        violation("setup-refused", "building a well-formed election failed without any fault: %s", x.err.c_str());
}
Res Place::encrypt(Op &op, Emitted &em, double pa, double pr)
{
    em.compact = is_compact(op.api);
    em.gave_nonce = is_nonce(op.api);
    em.nonce = op.nonce;
    em.seed = op.seed;
    em.ts = is_capi(op.api) ? 0 : op.ts;
    em.dev = is_med(op.api) ? op.dev : -1;
    auto *med = devs[op.dev].m.get();
    UP<eg::PlaintextBallot> pt;
    VBal v = op.v;
    {
        Lib l; // harness-made input objects: allocation faults are not armed yet
        pt = mk(v);
    }
    UP<eg::ElementModQ> seed = mkq(op.seed), nonce = mkq(op.nonce);
    em.t0 = cur_step();
    arm_faults(pa, pr);
    int st = 0;
    eg_ciphertext_ballot_t *cb = nullptr;
    eg_compact_ciphertext_ballot_t *cc = nullptr;
    auto *cmed = (eg_encryption_mediator_t *)med;
    auto *cpt = (eg_plaintext_ballot_t *)pt.get();
    auto *cim = (eg_internal_manifest_t *)e.im.get();
    auto *cctx = (eg_ciphertext_election_context_t *)e.ctx.get();
    auto *cseed = (eg_element_mod_q_t *)seed.get();
    Res x = lib([&] {
        switch (op.api) {
        case A_MED: em.obj = med->encrypt(*pt, true); break;
        case A_MED_NV: em.obj = med->encrypt(*pt, false); break;
        case A_MED_COMPACT: em.cobj = med->compactEncrypt(*pt, true); break;
        case A_MED_COMPACT_NV: em.cobj = med->compactEncrypt(*pt, false); break;
        case A_FREE: em.obj = eg::encryptBallot(*pt, *e.im, *e.ctx, *seed, nullptr, op.ts, op.verify); break;
        case A_FREE_NONCE: em.obj = eg::encryptBallot(*pt, *e.im, *e.ctx, *seed, std::move(nonce), op.ts, op.verify); break;
        case A_COMPACT: em.cobj = eg::encryptCompactBallot(*pt, *e.im, *e.ctx, *seed, nullptr, op.ts, op.verify); break;
        case A_COMPACT_NONCE: em.cobj = eg::encryptCompactBallot(*pt, *e.im, *e.ctx, *seed, std::move(nonce), op.ts, op.verify); break;
        case A_C_MED: st = eg_encryption_mediator_encrypt_ballot(cmed, cpt, &cb); break;
        case A_C_MED_V: st = eg_encryption_mediator_encrypt_ballot_verify_proofs(cmed, cpt, &cb); break;
        case A_C_MED_COMPACT: st = eg_encryption_mediator_compact_encrypt_ballot(cmed, cpt, &cc); break;
        case A_C_MED_COMPACT_V: st = eg_encryption_mediator_compact_encrypt_ballot_verify_proofs(cmed, cpt, &cc); break;
        case A_C_FREE: st = eg_encrypt_ballot(cpt, cim, cctx, cseed, op.verify, &cb); break;
        case A_C_FREE_NONCE: st = eg_encrypt_ballot_with_nonce(cpt, cim, cctx, cseed, (eg_element_mod_q_t *)nonce.release(), op.verify, &cb); break;
        case A_C_COMPACT: st = eg_encrypt_compact_ballot(cpt, cim, cctx, cseed, op.verify, &cc); break;
        case A_C_COMPACT_NONCE: st = eg_encrypt_compact_ballot_with_nonce(cpt, cim, cctx, cseed, (eg_element_mod_q_t *)nonce.release(), op.verify, &cc); break;
        }
    });
    em.t1 = cur_step();
    if (is_capi(op.api)) {
        probe(PR_CAPI);
        if (!x.ok)
            violation("c-api-threw", "the C interface let an exception escape: %s", x.err.c_str());
        if (st != 0) {
            x.ok = false;
            x.err = fmt("status %d", st);
            probe(PR_STATUS_ERR);
            if (cb || cc)
                violation("handle", "encryption reported an error but gave a ballot (interface %d)", op.api);
        } else {
            em.obj.reset((eg::CiphertextBallot *)cb);
            em.cobj.reset((eg::CompactCiphertextBallot *)cc);
        }
    }
    if (x.ok && !em.obj && !em.cobj)
        violation("no-result", "encryption reported success without a ballot");
    return x;
}
void Place::station(int t)
{
    for (auto &op : work[t]) {
        ctx(op.id + base);
        if (dropped(op.id) || (skip && skip(op.id)))
            continue;
        u64 arg;
        if (plan(F_CLOCK_JUMP, o.p_clock, 1u << 30, &arg)) {
            fired(F_CLOCK_JUMP);
            clock_jump(((int64_t)(arg % 200001) - 100000) * 1000000000ll);
        }
        if (plan(F_CLOCK_STALL, o.p_clock / 2, 2, &arg)) {
            fired(F_CLOCK_STALL);
            clock_stall(arg);
        }
        if (op.bad && plan(F_BAD_INPUT, 1, 1, &arg)) {
            // an unusable ballot first: has to be refused and must not disturb anything
            fired(F_BAD_INPUT);
            Op b = op;
            switch (op.badkind) {
            case 0: b.v.style = "no-such-style"; break;
            case 1: {
                auto *c = style_contests(e.m, b.v.style)[0];
                b.v.cons.clear();
                b.v.cons.push_back({c->id, {{c->sels[0].id, 2, ""}}});
                if (c->elected < 2 || (c->eff_allowed() && c->eff_allowed() < 2))
                    b.v.style = "no-such-style"; // it would be an overvote, which is accepted
                break;
            }
            default: b.v.style = ""; break;
            }
            Emitted em;
            Res x = encrypt(b, em, 0, 0);
            disarm_faults();
            if (x.ok)
                violation("bad-input-accepted", "a ballot with %s was accepted", b.v.style.empty() || b.v.style[0] == 'n' ? "an unknown ballot style" : "a vote of 2 on one selection");
            if (em.dev >= 0)
                last_fail_by_dev[em.dev] = ++fail_seq;
            if (on_fail)
                on_fail(*this, b, x, false);
        }
        Emitted em;
        bool failed = false;
        for (int attempt = 0;; attempt++) {
            em = Emitted();
            Res x = encrypt(op, em, attempt ? 0 : o.p_alloc, attempt ? 0 : o.p_rng);
            bool hit = disarm_faults();
            if (x.ok)
                break;
            failed = true;
            if (em.dev >= 0)
                last_fail_by_dev[em.dev] = ++fail_seq;
            if (on_fail)
                on_fail(*this, op, x, hit);
            if (!hit || attempt > 0) {
                probe(PR_REFUSED);
                if (o.refusal_fatal)
                    violation("refused", "a well-formed ballot was refused although no fault was injected%s: %s (interface %d)", attempt ? " (retry after a fault)" : "", x.err.c_str(), op.api);
                em.op = 0xffffffff;
                break;
            }
            probe(PR_FAULT_RETRY);
        }
        if (em.op == 0xffffffff)
            continue;
        em.op = op.id;
        em.api = op.api;
        em.tid = t;
        em.v = op.v;
        em.buffers = buffers;
        em.after_fail = failed;
        probe(PR_BALLOTS);
        if (em.gave_nonce)
            probe(PR_NONCE_GIVEN);
        if (em.compact) {
            probe(PR_COMPACT);
            em.b.id = em.cobj->getObjectId();
            em.b.style = em.cobj->getPlaintext()->getStyleId();
            em.b.seed = zq(*em.cobj->getBallotCodeSeed());
            em.b.code = zq(*em.cobj->getBallotCode());
            em.b.nonce = zq(*em.cobj->getNonce());
            em.b.has_nonce = true;
            em.b.ts = em.cobj->getTimestamp();
            event(em.b.ts);
        } else if (o.extract) {
            em.b = ex(*em.obj);
            event(orc::digest(em.b));
        }
        for (auto &x : expect(e.m, em.v)) {
            if (x.over)
                probe(PR_OVERVOTE);
            int s = 0;
            for (size_t i = 0; i < x.nreal; i++)
                s += x.votes[i];
            if (!x.over && s < (int)x.elected)
                probe(PR_UNDERVOTE);
            if (x.ext.find("write_ins") != S::npos)
                probe(PR_WRITEIN);
            if (x.ext.size() > 510)
                probe(PR_LONG_EXT);
        }
        if (on_emit)
            on_emit(em);
        if (!o.keep_objects) {
            Lib l;
            em.obj.reset();
            em.cobj.reset();
        }
        out.push_back(std::move(em));
    }
    ctx(CTX_NONE);
}
void Place::filler()
{
    for (auto &f : fill) {
        ctx(f.id + base);
        if (dropped(f.id))
            continue;
        arm_faults(o.p_alloc / 2, o.p_rng / 2);
        fired(F_BUF_STATE);
        Res x = lib([&] {
            switch (f.what) {
            case 0:
            case 1:
            case 2:
                eg::PrecomputeBufferContext::init(f.size);
                eg::PrecomputeBufferContext::populate(*e.ctx->getElGamalPublicKey());
                break;
            case 3: eg::PrecomputeBufferContext::stop_populate(); break;
            case 4: eg::PrecomputeBufferContext::empty_queues(); break;
            case 5: eg_precompute_init((int)f.size); break;
            case 6: {
                int a, b;
                eg_precompute_status(&a, &b);
                break;
            }
            case 7:
                eg_precompute_init((int)f.size);
                eg_precompute_populate((eg_element_mod_p_t *)e.ctx->getElGamalPublicKey());
                break;
            }
        });
        bool hit = disarm_faults();
        if (!x.ok && !hit)
            violation("buffer-call-failed", "a buffer call failed without any fault: %s", x.err.c_str());
    }
    ctx(CTX_NONE);
}
void Place::run_stations()
{
    V<int> tids;
    if (fill.size())
        tids.push_back(spawn([this] { filler(); }, "filler"));
    if (work.size() > 1)
        probe(PR_MULTI_STATION);
    if (work.size() == 1 && fill.empty())
        station(0);
    else
        for (size_t t = 0; t < work.size(); t++)
            tids.push_back(spawn([this, t] { station((int)t); }, "station"));
    for (int t : tids)
        join(t);
    ctx(CTX_NONE);
}
void run(const std::string &p, u32 inc, int logfd)
{
    int n = atoi(p.c_str() + 1);
    void (*T[])(u32) = {p01, p02, p03, p04, p05, p06, p07, p08, p09, p10, p11, p12, p13, nullptr, p15, p16, p17, p18};
    if (n == 14)
        p14(inc, logfd);
    else if (n >= 1 && n <= 18)
        T[n - 1](inc);
    finish_ok();
}
} // namespace scen
