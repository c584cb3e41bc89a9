// Scenarios on what happens to ballots after encryption: P11 (compact ballots) and P13 (tally)
#include "art.h"
#include <algorithm>
#include <cstring>
#include <electionguard/ballot.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/elgamal.hpp>
#include <electionguard/encrypt.h>
#include <map>
#include <set>
namespace scen {
static const eg::BallotBoxState STATES[3] = {eg::BallotBoxState::cast, eg::BallotBoxState::spoiled, eg::BallotBoxState::unknown};
// the newest stored record of an operation
static bool newest(const char *pre, u32 id, int &at)
{
    for (int i = 5; i >= 0; i--) {
        S x;
        if (disk_read(fmt("%s/%u/%d", pre, id, i), x)) {
            at = i;
            return true;
        }
    }
    return false;
}
// every contest of the style with every selection, and the votes that get encrypted are those of `v`
static VBal full_ballot(const MMan &m, const VBal &v)
{
    VBal r;
    r.id = v.id;
    r.style = v.style;
    for (auto *c : style_contests(m, v.style)) {
        VCon k;
        k.id = c->id;
        const VCon *have = nullptr;
        for (auto &x : v.cons)
            if (x.id == c->id && !have)
                have = &x;
        V<MSel> ss = c->sels;
        std::sort(ss.begin(), ss.end(), [](const MSel &a, const MSel &b) { return a.seq < b.seq; });
        for (auto &s : ss) {
            VSel n{s.id, 0, ""};
            if (have)
                for (auto &y : have->sels)
                    if (y.id == s.id) {
                        n = y;
                        break;
                    }
            k.sels.push_back(n);
        }
        r.cons.push_back(k);
    }
    return r;
}
static S votes_text(const MMan &m, const VBal &v)
{
    S t;
    for (auto &c : expect(m, v)) {
        t += c.id + ":";
        for (int x : c.votes)
            t += std::to_string(x) + ",";
    }
    return t;
}
// ================================================================ P11
void p11(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(11);
    o.refusal_fatal = true;
    o.max_threads = g.chance(0.5) ? 1 : 3;
    o.max_ballots = 2;
    o.p_alloc = g.chance(0.3) ? 0.25 : 0;
    o.p_rng = g.chance(0.15) ? 0.25 : 0;
    o.p_bad = 0.1;
    o.p_verify = 0.1;
    o.p_buffers = 0.7;
    o.g.rich = g.chance(0.2);
    o.g.max_con = 2;
    o.g.max_sel = 3;
    o.b.wild = g.chance(0.4);
    o.b.p_over = 0.2;
    o.apis = 0;
    for (int a = 0; a < A_N; a++)
        if (is_compact(a))
            o.apis |= 1u << a;
    Place p;
    p.plan_all(g, o);
    p.base = 1000 * inc;
    p.skip = [&](u32 id) {
        int at;
        return newest("rec", id, at);
    };
    if (spec.warm)
        warm_tables(p.e.c.K);
    start(inc);
    if (inc) {
        disk_crash();
        probe(PR_RESTART);
    }
    plan_crash(inc, 0.55);
    p.open();
    struct How { int fm; bool capi, capi2; bool sync; eg::BallotBoxState st; };
    auto how = [&](u32 id) {
        Rng q = gen(1100 + id);
        How h;
        h.capi = q.chance(0.3);
        do {
            h.fm = (int)q.below(FM_N);
        } while (!has_fmt(K_COMPACT, h.fm, h.capi));
        h.capi2 = q.chance(0.3) && has_fmt(K_COMPACT, h.fm, true);
        h.sync = q.chance(0.6);
        h.st = STATES[q.below(3)];
        return h;
    };
    p.on_emit = [&](Emitted &em) {
        How h = how(em.op);
        Obj x;
        x.kind = K_COMPACT;
        x.cc = std::move(em.cobj);
        Res z = lib([&] { x.cc->setBallotBoxState(h.st); });
        if (em.gave_nonce && em.b.nonce != em.nonce)
            violation("nonce", "compact ballot %s: the nonce given by the caller was not used", em.v.id.c_str());
        if (!is_med(em.api) && em.b.seed != em.seed)
            violation("seed", "compact ballot %s: the seed given by the caller was not used", em.v.id.c_str());
        if (em.b.id != em.v.id)
            violation("id", "compact ballot %s has the id %s", em.v.id.c_str(), em.b.id.c_str());
        // what the voter is told: durable before the ballot itself
        disk_sync(disk_write(fmt("told/%u/%u", em.op, inc), orc::hex(em.b.code) + " " + orc::hex(em.b.seed) + " " + orc::hex(em.b.nonce) + " " + std::to_string(em.b.ts)));
        disk_sync(disk_write(fmt("canon/%u/%u", em.op, inc), canon(x)));
        S bytes;
        z = lib([&] { bytes = put(x, h.fm, h.capi); });
        if (!z.ok)
            violation("store-failed", "storing a compact ballot as %s%s failed: %s", FMN[h.fm], h.capi ? " through the C interface" : "", z.err.c_str());
        int k = disk_write(fmt("rec/%u/%u", em.op, inc), bytes);
        if (h.sync)
            disk_sync(k);
        em.cobj = std::move(x.cc);
    };
    p.run_stations();
    // ------------------------------------------------ later: other buffers, other threads, maybe another process
    Rng q = gen(411 + inc);
    auto buffers = [&](u32 c) {
        ctx(c);
        u64 a;
        if (!plan(F_BUF_STATE, 0.7, 1u << 16, &a))
            return;
        fired(F_BUF_STATE);
        Res x = lib([&] {
            switch (a % 4) {
            case 0: eg::PrecomputeBufferContext::stop_populate(); break;
            case 1:
                eg::PrecomputeBufferContext::stop_populate();
                eg::PrecomputeBufferContext::empty_queues();
                break;
            default:
                eg::PrecomputeBufferContext::init(1 + (a >> 4) % 8);
                eg::PrecomputeBufferContext::populate(*p.e.ctx->getElGamalPublicKey());
                break;
            }
        });
        if (!x.ok)
            violation("buffer-call-failed", "a buffer call failed without any fault: %s", x.err.c_str());
    };
    buffers(800 + 1000 * inc);
    V<Place::Op *> all;
    for (auto &w : p.work)
        for (auto &op : w)
            if (!dropped(op.id))
                all.push_back(&op);
    auto expand = [&](const eg::CompactCiphertextBallot &c, UP<eg::CiphertextBallot> &full, double pa) {
        arm_faults(pa, 0);
        Res x = lib([&] { full = eg::expandCompactCiphertextBallot(c, *p.e.im, *p.e.ctx); });
        bool hit = disarm_faults();
        if (!x.standard)
            violation("nonstandard", "expanding a compact ballot threw something that is not a standard exception");
        if (!x.ok && hit) {
            probe(PR_FAULT_RETRY);
            x = lib([&] { full = eg::expandCompactCiphertextBallot(c, *p.e.im, *p.e.ctx); });
        }
        probe(PR_EXPAND);
        return x;
    };
    auto one = [&](Place::Op &op) {
        u32 base = 200 + op.id + 1000 * inc;
        ctx(base);
        int at;
        if (!newest("rec", op.id, at))
            return;
        How h = how(op.id);
        Rng r = gen(11000 + op.id * 7 + inc);
        S bytes, c, told;
        bool torn = false;
        disk_read(fmt("rec/%u/%d", op.id, at), bytes, &torn);
        disk_read(fmt("canon/%u/%d", op.id, at), c);
        disk_read(fmt("told/%u/%d", op.id, at), told);
        char cc[400], sc[400], nc[400];
        unsigned long tt = 0;
        if (sscanf(told.c_str(), "%399s %399s %399s %lu", cc, sc, nc, &tt) != 4)
            violation("harness", "a durable note is gone");
        Z code = orc::from_hex(cc), seed = orc::from_hex(sc), nonce = orc::from_hex(nc);
        // a damaged or altered record either does not expand or is still that very ballot
        auto judge_altered = [&](const eg::CompactCiphertextBallot &alt, const char *what, bool must) {
            UP<eg::CiphertextBallot> f;
            Res x = expand(alt, f, 0);
            eval();
            if (!x.ok) {
                probe(PR_TAMPER_REFUSED);
                return;
            }
            Bal b = ex(*f);
            bool same = b.id == op.v.id && b.code == code && b.seed == seed && b.nonce == nonce && b.ts == tt && zq(*alt.getBallotCode()) == code;
            if (must || !same)
                violation("altered-expands", "a compact ballot with %s expands as if nothing had happened (ballot %s)", what, op.v.id.c_str());
            Lib l;
            f.reset();
        };
        auto damaged = [&](const S &b) {
            Obj y;
            Res z = lib([&] { y = get(K_COMPACT, h.fm, b, h.capi2); });
            if (!z.standard)
                violation("nonstandard", "loading a damaged compact ballot threw something that is not a standard exception");
            if (!z.ok) {
                probe(PR_TORN_REFUSED);
                return;
            }
            probe(PR_TORN_LOADED);
            judge_altered(*y.cc, "damaged bytes", false);
            Lib l;
            y.drop();
        };
        if (torn) {
            damaged(bytes);
            return;
        }
        Obj y;
        Res z = lib([&] { y = get(K_COMPACT, h.fm, bytes, h.capi2); });
        if (!z.ok)
            violation("load-failed", "a completely stored compact ballot (%s%s) does not load: %s", FMN[h.fm], h.capi2 ? ", C interface" : "", z.err.c_str());
        probe(PR_RELOAD);
        S d = canon(y);
        eval();
        if (d != c)
            violation("differs", "a compact ballot stored as %s is not the same after reloading: %s", FMN[h.fm], diff(c, d).c_str());
        int times = r.chance(0.25) ? 2 : 1;
        for (int t = 0; t < times; t++) {
            if (t)
                ctx(base + 40);
            UP<eg::CiphertextBallot> f;
            Res x = expand(*y.cc, f, o.p_alloc);
            if (!x.ok)
                violation("expand-refused", "compact ballot %s (interface %d, stored as %s, %s) could not be expanded: %s", op.v.id.c_str(), op.api, FMN[h.fm], inc > (u32)at ? "after a restart" : "same process", x.err.c_str());
            Bal b = ex(*f);
            eval();
            if (b.code != code || b.seed != seed || b.ts != tt || b.nonce != nonce || b.id != op.v.id)
                violation("expand-differs", "compact ballot %s expands to another %s", op.v.id.c_str(), b.code != code ? "ballot code" : b.seed != seed ? "seed" : b.ts != tt ? "timestamp" : b.nonce != nonce ? "nonce" : "id");
            S why = orc::verify(b, p.e.c, 11);
            if (why.size())
                violation("expand-invalid", "the ballot expanded from %s does not verify: %s", op.v.id.c_str(), why.c_str());
            why = check_choices(p.e.m, op.v, b, p.e.c);
            if (why.empty())
                why = check_ext(p.e.m, op.v, b, p.e.c);
            if (why.empty())
                why = check_nonces(p.e.m, op.v, b, p.e.c, true);
            if (why.empty())
                why = check_ids(p.e.m, op.v, b, p.e.c);
            if (why.size())
                violation("expand-content", "the ballot expanded from %s: %s", op.v.id.c_str(), why.c_str());
            if (r.chance(0.2)) {
                bool v = false;
                x = lib([&] { v = f->isValidEncryption(*p.e.ctx->getManifestHash(), *p.e.ctx->getElGamalPublicKey(), *p.e.ctx->getCryptoExtendedBaseHash()); });
                if (!x.ok || !v)
                    violation("expand-invalid", "the library does not accept the ballot expanded from %s", op.v.id.c_str());
            }
            if (canon(y) != c)
                violation("expand-changed", "expanding compact ballot %s changed it", op.v.id.c_str());
            Lib l;
            f.reset();
        }
        // the plaintext half alone
        if (r.chance(0.3)) {
            UP<eg::PlaintextBallot> pt;
            Res x = lib([&] { pt = eg::expandCompactPlaintextBallot(*y.cc->getPlaintext(), *p.e.im); });
            if (!x.ok)
                violation("expand-refused", "the plaintext of compact ballot %s could not be expanded: %s", op.v.id.c_str(), x.err.c_str());
            VBal have = full_ballot(p.e.m, ex(*pt)), want = full_ballot(p.e.m, op.v);
            S why;
            eval();
            if (!w::same(have, want, why))
                violation("plaintext", "the plaintext of compact ballot %s: %s", op.v.id.c_str(), why.c_str());
            Lib l;
            pt.reset();
        }
        // ---------------------------------------- alterations
        for (int i = 0; i < 3; i++) {
            ctx(base + 80 + 40 * i);
            u64 a;
            if (!plan(F_TAMPER, 0.4, 1ull << 40, &a))
                continue;
            Rng k(a);
            VBal v = full_ballot(p.e.m, op.v);
            Z s2 = seed, c2 = code, n2 = nonce;
            u64 t2 = tt;
            S what;
            bool must = true;
            auto twist = [&](Z x) {
                if (k.chance(0.5))
                    return orc::modq(x + 1 + (unsigned long)k.below(1000));
                if (k.chance(0.5))
                    return Z(orc::Q - 1 - x);
                mpz_combit(x.get_mpz_t(), k.below(250));
                return orc::modq(x);
            };
            switch (k.below(7)) {
            case 0:
            case 1: {
                auto &cn = v.cons[k.below(v.cons.size())];
                int n = 1 + (int)k.below(2);
                for (int j = 0; j < n; j++) {
                    auto &s = cn.sels[k.below(cn.sels.size())];
                    s.vote = s.vote ? 0 : 1;
                }
                what = "altered votes";
                must = votes_text(p.e.m, v) != votes_text(p.e.m, op.v);
                break;
            }
            case 2: v.id += k.chance(0.5) ? "x" : " "; what = "an altered ballot id"; break;
            case 3: n2 = twist(n2); what = "an altered nonce"; must = n2 != nonce; break;
            case 4: s2 = twist(s2); what = "an altered seed"; must = s2 != seed; break;
            case 5: t2 = k.chance(0.5) ? t2 + 1 : k.chance(0.5) ? t2 ^ (1ull << k.below(31)) : t2 + 1 + k.below(100000); what = "an altered timestamp"; must = t2 != tt; break;
            case 6: c2 = twist(c2); what = "an altered ballot code"; must = c2 != code; break;
            }
            if (!must || (what == "an altered timestamp" && !t2))
                continue;
            fired(F_TAMPER);
            UP<eg::CompactCiphertextBallot> alt;
            Res x = lib([&] {
                auto pt = mk(v);
                alt = std::make_unique<eg::CompactCiphertextBallot>(eg::CompactPlaintextBallot::make(*pt), h.st, mkq(s2), mkq(c2), t2, mkq(n2));
                if (a & 1) { // by way of the disk
                    auto fm = (int)((a >> 1) % FM_N);
                    alt = load_compact(store(*alt, fm), fm);
                }
            });
            if (!x.ok) {
                probe(PR_TAMPER_REFUSED);
                continue;
            }
            judge_altered(*alt, what.c_str(), true);
            Lib l;
            alt.reset();
        }
        for (int i = 0; i < (r.chance(0.3) ? 2 : 1); i++) {
            ctx(base + 200 + 40 * i);
            Fault k = F_DISK_FLIP;
            bool hit;
            S dd = damage(bytes, k, hit);
            if (hit)
                damaged(dd);
        }
        Lib l;
        y.drop();
    };
    if (all.size() > 1 && q.chance(0.4)) {
        V<int> tids;
        tids.push_back(spawn([&] { buffers(801 + 1000 * inc); ctx(CTX_NONE); }, "buffers"));
        for (auto *op : all)
            tids.push_back(spawn([&, op] { one(*op); ctx(CTX_NONE); }, "expander"));
        for (int t : tids)
            join(t);
    } else
        for (auto *op : all)
            one(*op);
    disarm_crash();
    describe(p);
}
// ================================================================ P13
void p13(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(13);
    o.refusal_fatal = true;
    o.max_threads = g.chance(0.5) ? 1 : 3;
    o.max_ballots = 3;
    o.p_buffers = 0.6;
    o.p_filler = 0.3;
    o.p_verify = 0.03;
    o.p_bad = 0.05;
    o.g.max_con = 2;
    o.g.max_sel = 3;
    o.b.p_over = 0.15;
    double pa = g.chance(0.3) ? 0.3 : 0;
    Place p;
    p.plan_all(g, o);
    p.base = 1000 * inc;
    p.skip = [&](u32 id) {
        int at;
        return newest("st", id, at);
    };
    struct How { int fm, fm2; bool capi, capi2, csub; bool sync; eg::BallotBoxState st; };
    auto how = [&](u32 id) {
        Rng q = gen(1300 + id);
        How h;
        h.fm = (int)q.below(FM_N);
        h.fm2 = (int)q.below(FM_N);
        h.capi = q.chance(0.3) && has_fmt(K_SUBMITTED, h.fm, true);
        h.capi2 = q.chance(0.3) && has_fmt(K_SUBMITTED, h.fm2, true);
        h.csub = q.chance(0.4);
        h.sync = q.chance(0.6);
        h.st = q.chance(0.65) ? STATES[0] : q.chance(0.85) ? STATES[1] : STATES[2];
        return h;
    };
    if (spec.warm)
        warm_tables(p.e.c.K);
    start(inc);
    if (inc) {
        disk_crash();
        probe(PR_RESTART);
    }
    plan_crash(inc, 0.5);
    p.open();
    V<int> unsynced;
    p.on_emit = [&](Emitted &em) {
        How h = how(em.op);
        Obj x;
        x.kind = K_SUBMITTED;
        UP<eg::CiphertextBallot> full;
        Res z = lib([&] {
            if (em.compact) {
                full = eg::expandCompactCiphertextBallot(*em.cobj, *p.e.im, *p.e.ctx);
                em.cobj.reset();
            } else
                full = std::move(em.obj);
            if (h.csub) {
                eg_submitted_ballot_t *sb = nullptr;
                int st = eg_submitted_ballot_from((eg_ciphertext_ballot_t *)full.get(), (eg_ballot_box_state_t)h.st, &sb);
                if (st)
                    throw StatusError("eg_submitted_ballot_from", st);
                x.sb.reset((eg::SubmittedBallot *)sb);
            } else
                x.sb = eg::SubmittedBallot::from(*full, h.st);
        });
        if (!z.ok)
            violation("submit-failed", "submitting ballot %s failed: %s", em.v.id.c_str(), z.err.c_str());
        probe(PR_SUBMITTED);
        Bal a = ex(*full), b = ex(*x.sb);
        S why;
        a.state = b.state;
        eval();
        if (!orc::eq(a, b, false, why))
            violation("submit-differs", "submitting ballot %s changed its %s", em.v.id.c_str(), why.c_str());
        if (x.sb->getState() != h.st || eg_submitted_ballot_get_state((eg_submitted_ballot_t *)x.sb.get()) != (eg_ballot_box_state_t)h.st)
            violation("state", "ballot %s was submitted with state %d and has state %d", em.v.id.c_str(), (int)h.st, (int)x.sb->getState());
        disk_sync(disk_write(fmt("canon/%u/%u", em.op, inc), canon(x)));
        S bytes;
        z = lib([&] {
            bytes = put(x, h.fm, h.capi);
            full.reset();
            x.drop();
        });
        if (!z.ok)
            violation("store-failed", "storing submitted ballot %s as %s failed: %s", em.v.id.c_str(), FMN[h.fm], z.err.c_str());
        int k = disk_write(fmt("st/%u/%u", em.op, inc), bytes);
        if (h.sync)
            disk_sync(k);
        else
            unsynced.push_back(k);
    };
    p.run_stations();
    for (int k : unsynced)
        disk_sync(k);
    std::map<u32, Place::Op *> all;
    for (auto &w : p.work)
        for (auto &op : w)
            if (!dropped(op.id))
                all[op.id] = &op;
    std::map<S, u32> by_id;
    for (auto &x : all)
        by_id[x.second->v.id] = x.first;
    // ------------------------------------------------ delivery to the tally server
    auto load = [&](const S &bytes, int fm, bool capi, Obj &y) {
        arm_faults(pa, 0);
        Res z = lib([&] { y = get(K_SUBMITTED, fm, bytes, capi); });
        if (!z.ok && disarm_faults()) {
            probe(PR_FAULT_RETRY);
            z = lib([&] { y = get(K_SUBMITTED, fm, bytes, capi); });
        }
        disarm_faults();
        if (!z.ok)
            violation("load-failed", "a submitted ballot (%s%s) does not load: %s", FMN[fm], capi ? ", C interface" : "", z.err.c_str());
        probe(PR_RELOAD);
    };
    auto check_loaded = [&](u32 id, const Obj &y, const char *where) {
        int at;
        S c;
        newest("st", id, at);
        disk_read(fmt("canon/%u/%d", id, at), c);
        S d = canon(y);
        eval();
        if (d != c)
            violation("differs", "submitted ballot %s %s is not the same: %s", all[id]->v.id.c_str(), where, diff(c, d).c_str());
        How h = how(id);
        if (y.sb->getState() != h.st)
            violation("state", "ballot %s was submitted with state %d and %s has state %d", all[id]->v.id.c_str(), (int)h.st, where, (int)y.sb->getState());
    };
    auto receive = [&](const S &bytes, int fm, bool capi) {
        Obj y;
        load(bytes, fm, capi, y);
        S id = y.sb->getObjectId();
        auto it = by_id.find(id);
        if (it == by_id.end())
            violation("id", "a delivered ballot has the unknown id %s", id.c_str());
        u32 op = it->second;
        check_loaded(op, y, "as delivered");
        S have;
        if (disk_read(fmt("rx/%u", op), have)) {
            probe(PR_REDELIVERED); // counted once
        } else {
            How h = how(op);
            S out;
            Res z = lib([&] { out = put(y, h.fm2, h.capi2); });
            if (!z.ok)
                violation("store-failed", "storing a delivered ballot as %s failed: %s", FMN[h.fm2], z.err.c_str());
            disk_sync(disk_write(fmt("rx/%u", op), out));
        }
        Lib l;
        y.drop();
    };
    Rng q = gen(413 + inc);
    struct Late { u32 op; };
    V<u32> late;
    for (u32 round = 0; round < 4; round++) {
        ctx(600 + round + 1000 * inc);
        V<u32> todo;
        for (auto &x : all) {
            S have;
            int at;
            if (newest("st", x.first, at) && (!disk_read(fmt("rx/%u", x.first), have) || q.chance(0.1)))
                todo.push_back(x.first);
        }
        for (u32 l : late)
            todo.push_back(l);
        late.clear();
        u64 a;
        if (todo.size() > 1 && plan(F_MSG_REORDER, 0.5, 1u << 30, &a)) {
            fired(F_MSG_REORDER);
            Rng k(a);
            for (size_t i = todo.size(); i > 1; i--)
                std::swap(todo[i - 1], todo[k.below(i)]);
        }
        for (u32 id : todo) {
            int at;
            S bytes;
            newest("st", id, at);
            disk_read(fmt("st/%u/%d", id, at), bytes);
            How h = how(id);
            if (round < 3 && plan(F_MSG_DROP, 0.25, 0, nullptr)) {
                fired(F_MSG_DROP);
                continue;
            }
            if (plan(F_MSG_DUP, 0.2, 1u << 10, &a)) {
                fired(F_MSG_DUP);
                if (a & 1)
                    receive(bytes, h.fm, h.capi);
                else
                    late.push_back(id);
            }
            receive(bytes, h.fm, h.capi);
        }
    }
    // ------------------------------------------------ tally
    ctx(700 + 1000 * inc);
    struct In { u32 op; Obj y; Bal b; };
    V<In> in;
    for (auto &x : all) {
        S bytes;
        if (!disk_read(fmt("rx/%u", x.first), bytes)) {
            int at;
            if (newest("st", x.first, at))
                violation("harness", "an acknowledged ballot was not delivered");
            continue;
        }
        How h = how(x.first);
        In n;
        n.op = x.first;
        load(bytes, h.fm2, h.capi2, n.y);
        check_loaded(n.op, n.y, "as received");
        n.b = ex(*n.y.sb);
        in.push_back(std::move(n));
    }
    for (auto &n : in)
        if (n.y.sb->getState() == eg::BallotBoxState::spoiled)
            probe(PR_SPOILED);
    typedef std::reference_wrapper<eg::ElGamalCiphertext> Ref;
    struct Cell { S con, sel; V<Ref> refs; V<std::pair<Z, Z>> val; V<int> votes; };
    std::map<S, Cell> cells;
    auto cell = [&](const S &con, const S &sel) -> Cell & {
        auto &c = cells[con + "/" + sel];
        c.con = con;
        c.sel = sel;
        return c;
    };
    for (auto &n : in) {
        if (n.y.sb->getState() != eg::BallotBoxState::cast)
            continue;
        auto want = expect(p.e.m, all[n.op]->v);
        for (auto &c : n.y.sb->getContests()) {
            const ECon *w = nullptr;
            for (auto &e : want)
                if (e.id == c.get().getObjectId())
                    w = &e;
            if (!w)
                violation("contest", "a cast ballot has a contest that is not part of its style");
            for (auto &s : c.get().getSelections()) {
                auto &cl = cell(w->id, s.get().getObjectId());
                cl.refs.push_back(*s.get().getCiphertext());
                cl.val.push_back({zp(*s.get().getCiphertext()->getPad()), zp(*s.get().getCiphertext()->getData())});
                int v = -1;
                for (size_t i = 0; i < w->sels.size(); i++)
                    if (w->sels[i].id == s.get().getObjectId())
                        v = w->votes[i];
                if (v < 0)
                    violation("selection", "a cast ballot has a selection that is not part of its contest");
                cl.votes.push_back(v);
            }
            auto &cl = cell(w->id, "(all)");
            cl.refs.push_back(*c.get().getCiphertextAccumulation());
            cl.val.push_back({zp(*c.get().getCiphertextAccumulation()->getPad()), zp(*c.get().getCiphertextAccumulation()->getData())});
            cl.votes.push_back((int)w->elected);
            UP<eg::ElGamalCiphertext> acc;
            V<Ref> rs;
            for (auto &s : c.get().getSelections())
                rs.push_back(*s.get().getCiphertext());
            Res z = lib([&] { acc = eg::elgamalAdd(rs); });
            eval();
            if (!z.ok || zp(*acc->getPad()) != cl.val.back().first || zp(*acc->getData()) != cl.val.back().second)
                violation("accumulation", "the accumulation of a contest is not the sum of its selections");
            Lib l;
            acc.reset();
        }
    }
    // one addition of any list, in any grouping, by any number of threads
    u32 seq = 0;
    auto add = [&](const V<Ref> &l, Rng k, double pf, UP<eg::ElGamalCiphertext> &out) {
        std::function<void(const V<Ref> &, UP<eg::ElGamalCiphertext> &, int)> rec = [&](const V<Ref> &l, UP<eg::ElGamalCiphertext> &out, int depth) {
            V<UP<eg::ElGamalCiphertext>> part;
            V<Ref> top;
            if (depth < 3 && l.size() > 1 && k.chance(0.5)) {
                for (size_t i = 0; i < l.size();) {
                    size_t n = std::min<size_t>(l.size() - i, 1 + k.below(l.size()));
                    if (n == 1 && k.chance(0.5))
                        top.push_back(l[i]);
                    else {
                        part.emplace_back();
                        rec(V<Ref>(l.begin() + (long)i, l.begin() + (long)(i + n)), part.back(), depth + 1);
                        top.push_back(*part.back());
                    }
                    i += n;
                }
            } else
                top = l;
            arm_faults(pf, 0);
            Res z = lib([&] { out = eg::elgamalAdd(top); });
            bool hit = disarm_faults();
            if (!z.ok && hit) {
                probe(PR_FAULT_RETRY);
                z = lib([&] { out = eg::elgamalAdd(top); });
            }
            if (!z.ok)
                violation("add-failed", "adding %zu ciphertexts failed: %s", top.size(), z.err.c_str());
            Lib lb;
            part.clear();
        };
        rec(l, out, 0);
    };
    auto judge = [&](const Cell &c, const V<std::pair<Z, Z>> &val, int64_t sum, const eg::ElGamalCiphertext &r, const char *how) {
        Z a = 1, b = 1;
        for (auto &v : val) {
            a = a * v.first % orc::P;
            b = b * v.second % orc::P;
        }
        eval();
        probe(PR_TALLY);
        if (zp(*r.getPad()) == a && zp(*r.getData()) == b && orc::decrypt(a, b, p.e.c, sum) == sum)
            return;
        violation("tally", "%s/%s: %zu ciphertexts %s decrypt to %ld, the votes add up to %ld", c.con.c_str(), c.sel.c_str(), val.size(), how, (long)orc::decrypt(zp(*r.getPad()), zp(*r.getData()), p.e.c, sum * 2 + 50), (long)sum);
    };
    auto tally_cell = [&](const Cell &c, u64 salt, int threads) {
        Rng k = gen(9000 + salt);
        V<size_t> idx;
        size_t m = k.chance(0.25) ? 1 + k.below(40) : 1; // a large count of the same kind of ballot
        for (size_t i = 0; i < c.refs.size(); i++)
            for (size_t j = 0; j < (m > 1 ? 1 + k.below(m) : 1); j++)
                idx.push_back(i);
        for (size_t i = idx.size(); i > 1; i--)
            std::swap(idx[i - 1], idx[k.below(i)]);
        V<Ref> l;
        V<std::pair<Z, Z>> val;
        int64_t sum = 0;
        for (size_t i : idx) {
            l.push_back(c.refs[i]);
            val.push_back(c.val[i]);
            sum += c.votes[i];
        }
        UP<eg::ElGamalCiphertext> out, again;
        if (threads > 1 && l.size() > 1) {
            V<UP<eg::ElGamalCiphertext>> part((size_t)threads);
            V<int> tids;
            V<V<Ref>> chunk((size_t)threads);
            for (auto &x : l)
                chunk[k.below((u64)threads)].push_back(x);
            for (int t = 0; t < threads; t++)
                if (chunk[(size_t)t].size()) {
                    u32 cx = 701 + seq++ % 190 + 1000 * inc;
                    Rng kk(k.next());
                    tids.push_back(spawn([&, t, cx, kk] {
                        ctx(cx);
                        add(chunk[(size_t)t], kk, pa, part[(size_t)t]);
                        ctx(CTX_NONE);
                    },
                                         "adder"));
                }
            for (int t : tids)
                join(t);
            V<Ref> top;
            for (auto &x : part)
                if (x)
                    top.push_back(*x);
            add(top, k, 0, out);
            Lib lb;
            part.clear();
        } else
            add(l, k, pa, out);
        judge(c, val, sum, *out, threads > 1 ? "added by several threads" : "added");
        if (k.chance(0.3)) {
            add(l, k, 0, again);
            judge(c, val, sum, *again, "added once more");
        }
        Lib lb;
        out.reset();
        again.reset();
    };
    u64 salt = 0;
    int threads = q.chance(0.5) ? 1 : (int)q.range(2, 3);
    if (threads > 1 && q.chance(0.5)) { // several tallies at the same time over the same ballots
        V<int> tids;
        for (int t = 0; t < threads; t++)
            tids.push_back(spawn([&, t] {
                ctx(701 + 190 + (u32)t + 1000 * inc);
                u64 k = 0;
                for (auto &c : cells) {
                    k++;
                    tally_cell(c.second, k * 10 + (u64)t, 1);
                }
                ctx(CTX_NONE);
            },
                                 "tally"));
        for (int t : tids)
            join(t);
    } else
        for (auto &c : cells)
            tally_cell(c.second, ++salt, salt < 4 ? threads : 1);
    for (auto &n : in) {
        S why;
        Bal b = ex(*n.y.sb);
        eval();
        if (!orc::eq(n.b, b, true, why) || n.b.state != b.state)
            violation("inputs-changed", "tallying changed ballot %s: %s", n.b.id.c_str(), why.c_str());
    }
    disarm_crash();
    describe(p);
    Lib l;
    in.clear();
}
} // namespace scen
