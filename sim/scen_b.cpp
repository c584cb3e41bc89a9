// Scenarios around process-wide state: P06 P07 P08
#include "place.h"
extern "C" {
#include <electionguard/election.h>
#include <electionguard/encrypt.h>
}
#include <algorithm>
#include <map>
#include <set>
namespace scen {
typedef eg::PrecomputeBufferContext PB;
// ================================================================ P06
struct Bufs {
    Election e;
    u32 maxmax = 0;
};
static u32 cur() { u32 v = 0; Lib l; v = PB::get_current_queue_size(); return v; }
static UP<eg::TwoTriplesAndAQuadruple> draw2() { Lib l; return PB::getTwoTriplesAndAQuadruple(); }
static UP<eg::Triple> draw1() { Lib l; return PB::getTriple(); }
static void status(bool capi, u32 &count, u32 &max)
{
    Lib l;
    if (capi) {
        int a = -1, b = -1;
        if (eg_precompute_status(&a, &b) != 0)
            violation("status-failed", "the buffer status call failed");
        count = (u32)a;
        max = (u32)b;
    } else {
        count = PB::get_current_queue_size();
        max = PB::get_max_queue_size();
    }
}
static void call(bool capi, int what, u32 n, const eg::ElementModP *K)
{
    Lib l;
    int st = 0;
    switch (what) {
    case 0: capi ? void(st = eg_precompute_init((int)n)) : PB::init(n); break;
    case 1: capi ? void(st = eg_precompute_populate((eg_element_mod_p_t *)K)) : PB::populate(*K); break;
    case 2: capi ? void(st = eg_precompute_stop()) : PB::stop_populate(); break;
    case 3: PB::empty_queues(); break;
    }
    if (st != 0)
        violation("call-failed", "buffer call %d returned status %d without any fault", what, st);
}
// takes every single triple there is: filling never makes more than twice the configured maximum
static void check_triples(u32 sup, const S &hist)
{
    u32 n = 0;
    for (;; n++) {
        auto t = draw1();
        if (!t)
            break;
        Lib l;
        t.reset();
    }
    eval();
    if (n > 2 * sup)
        violation("over-full", "%u single triples were buffered although the configured maximum never exceeded %u,%s", n, sup, hist.c_str());
}
// one controlling thread: an exact model of the number of sets
static void p06_seq(Rng g, Election &e)
{
    u32 n = (u32)g.range(4, 14);
    sh->ops = n;
    start(0);
    lib([&] { build(e, g.chance(0.5), false); });
    auto *K = e.ctx->getElGamalPublicKey();
    u32 size = 0, max = 0;
    bool ok = false, trip_known = false;
    u64 trips = 0;
    S hist;
    PlaceOpt o;
    bool small = g.chance(0.4); // a small buffer refilled again and again
    u32 sup = 0;
    for (u32 i = 0; i < n; i++) {
        int k = small && g.chance(0.7) ? (g.chance(0.5) ? 3 : 7) : (int)g.below(9);
        bool sets_only = g.chance(0.5);
        bool capi = g.chance(0.4);
        u32 m = (u32)(small ? g.range(1, 2) : g.chance(0.15) ? g.range(7, 14) : g.range(1, 6));
        u32 draws = (u32)g.range(1, 5);
        VBal v = gen_ballot(g, e.m, "b" + std::to_string(i), o.b);
        if (dropped(i))
            continue;
        ctx(i);
        if (!max)
            k = 0;
        hist += fmt(" %d", k);
        switch (k) {
        case 0: case 1:
            call(capi, 0, m, K);
            max = m;
            sup = std::max(sup, max);
            ok = true;
            hist += fmt("(init %u)", m);
            break;
        case 2: case 3: case 4: {
            call(capi, 1, 0, K);
            u32 before = size;
            if (ok && size < max)
                size = max;
            if (ok && size == max && before != size)
                probe(PR_BUF_FULL);
            hist += "(fill)";
            trip_known = false;
            break;
        }
        case 5:
            call(capi, 2, 0, K);
            ok = false;
            probe(PR_BUF_STOP);
            hist += "(stop)";
            break;
        case 6:
            call(false, 3, 0, K);
            size = 0;
            trip_known = true;
            trips = 0;
            probe(PR_BUF_EMPTY);
            hist += "(empty)";
            break;
        case 7:
            for (u32 j = 0; j < draws; j++) {
                auto q = draw2();
                probe(PR_BUF_DRAW);
                if ((bool)q != (size > 0))
                    violation("draw", "a draw %s although the buffers hold %u sets, after%s", q ? "returned a set" : "found nothing", size, hist.c_str());
                if (q)
                    size--;
                auto t = sets_only ? nullptr : draw1();
                if (t && trip_known && !trips)
                    violation("not-empty", "a value was left after the buffers had been emptied, after%s", hist.c_str());
                Lib l;
                q.reset();
                t.reset();
                eval();
            }
            hist += "(draw)";
            break;
        case 8: {
            // encryption takes one set per selection as long as there are any
            size_t sels = 0;
            for (auto &c : expect(e.m, v))
                sels += c.sels.size();
            UP<eg::CiphertextBallot> b;
            Res x = lib([&] { b = eg::encryptBallot(*mk(v), *e.im, *e.ctx, *mkq(7), nullptr, 0, false); });
            if (!x.ok)
                violation("encrypt-failed", "encryption failed with %u buffered sets after%s: %s", size, hist.c_str(), x.err.c_str());
            u32 now = cur();
            if (now > size)
                violation("size", "encryption left %u sets of %u", now, size);
            size = now;
            (void)sels;
            hist += "(encrypt)";
            Lib l;
            b.reset();
            break;
        }
        }
        u32 c, mx;
        status(g.chance(0.5), c, mx);
        eval();
        if (max && mx != max)
            violation("reported-max", "the reported maximum is %u, configured was %u, after%s", mx, max, hist.c_str());
        if (c > size)
            violation(size >= max ? "over-full" : "size", "%u sets are buffered where %u are possible (maximum %u), after%s", c, size, max, hist.c_str());
        if (c < size)
            violation("size", "only %u sets are buffered where %u are expected (maximum %u), after%s", c, size, max, hist.c_str());
    }
    ctx(CTX_NONE);
    check_triples(sup, hist);
    sample("one thread:" + hist);
}
// many threads: fillers, a stopper, an emptier, status readers, drawers and encrypting stations
static void p06_par(Rng g, Election &e)
{
    bool resize = g.chance(0.4), stopper = g.chance(0.6), emptier = g.chance(0.4), enc = g.chance(0.4);
    u32 fillers = (u32)g.range(1, 3), M = (u32)(stopper && !resize ? g.range(8, 40) : g.range(1, 7));
    u32 drawers = (u32)g.range(0, 2);
    bool warmfirst = g.chance(0.5);
    struct Op { u32 id; int kind; u32 arg; bool capi; };
    V<V<Op>> th;
    u32 ops = 0, sup = M;
    std::set<u32> maxima{M};
    for (u32 i = 0; i < fillers; i++) {
        V<Op> v;
        for (u32 j = 0, n = (u32)g.range(1, 3); j < n; j++)
            v.push_back({ops++, 1, 0, g.chance(0.3)});
        th.push_back(v);
    }
    for (u32 i = 0; i < drawers; i++)
        th.push_back({{ops++, 4, (u32)g.range(1, 6), false}});
    if (emptier)
        th.push_back({{ops++, 3, (u32)g.range(1, 3), false}});
    if (resize) {
        V<Op> v;
        for (u32 j = 0, n = (u32)g.range(1, 3); j < n; j++) {
            u32 m = (u32)g.range(1, 7);
            v.push_back({ops++, 0, m, g.chance(0.3)});
            maxima.insert(m);
            sup = std::max(sup, m);
        }
        th.push_back(v);
    }
    th.push_back({{ops++, 5, (u32)g.range(2, 12), g.chance(0.5)}});
    if (enc)
        th.push_back({{ops++, 6, 1, false}});
    u32 stop_delay = (u32)g.range(0, 60);
    u32 stop_op = ops;
    if (stopper)
        th.push_back({{ops++, 2, stop_delay, g.chance(0.4)}});
    VBal v = gen_ballot(g, e.m, "b", BalOpt());
    sh->ops = ops;
    if (warmfirst)
        warm_tables(e.c.K);
    start(0);
    lib([&] { build(e, true, false); });
    auto *K = e.ctx->getElGamalPublicKey();
    call(false, 0, M, K);
    u64 drawn = 0, stop_end = 0, stop_size = 0, drawn_at_stop = 0;
    u32 active_at_stop = 0, active = 0;
    bool stopped = false, emptied_after = false;
    V<int> tids;
    for (auto &ops_ : th)
        tids.push_back(spawn([&, ops_] {
            for (auto &op : ops_) {
                if (dropped(op.id))
                    continue;
                ctx(op.id);
                switch (op.kind) {
                case 0: call(op.capi, 0, op.arg, K); break;
                case 1: {
                    active++;
                    call(op.capi, 1, 0, K);
                    active--;
                    break;
                }
                case 2:
                    for (u32 i = 0; i < op.arg; i++)
                        yield_point();
                    call(op.capi, 2, 0, K);
                    stop_end = cur_step();
                    active_at_stop = active;
                    drawn_at_stop = drawn;
                    stopped = true;
                    stop_size = cur(); // taken after: sets added in between only make the bound looser
                    probe(PR_BUF_STOP);
                    break;
                case 3:
                    for (u32 i = 0; i < op.arg; i++) {
                        call(false, 3, 0, K);
                        if (stopped)
                            emptied_after = true;
                        probe(PR_BUF_EMPTY);
                    }
                    break;
                case 4:
                    for (u32 i = 0; i < op.arg; i++) {
                        auto q = draw2();
                        if (q)
                            drawn++;
                        auto t = draw1();
                        probe(PR_BUF_DRAW);
                        Lib l;
                        q.reset();
                        t.reset();
                    }
                    break;
                case 5:
                    for (u32 i = 0; i < op.arg; i++) {
                        u32 c, m;
                        status(op.capi, c, m);
                        eval();
                        if (c > sup)
                            violation("over-full", "%u sets are buffered although no more than %u were ever configured", c, sup);
                        if (!maxima.count(m))
                            violation("reported-max", "the reported maximum %u was never configured", m);
                        if (c == sup)
                            probe(PR_BUF_FULL);
                        yield_point();
                    }
                    break;
                case 6: {
                    UP<eg::CiphertextBallot> b;
                    Res x = lib([&] { b = eg::encryptBallot(*mk(v), *e.im, *e.ctx, *mkq(7), nullptr, 0, false); });
                    if (!x.ok)
                        violation("encrypt-failed", "encryption failed while buffers were in use: %s", x.err.c_str());
                    S why = check_choices(e.m, v, ex(*b), e.c);
                    if (why.size())
                        violation("encrypt-wrong", "encryption while buffers were in use: %s", why.c_str());
                    eval();
                    Lib l;
                    b.reset();
                    break;
                }
                }
            }
            ctx(CTX_NONE);
        }));
    for (int t : tids)
        join(t);
    u32 fin = cur();
    eval();
    if (fin > sup)
        violation("over-full", "%u sets are buffered although no more than %u were ever configured", fin, sup);
    if (stopped && !resize && !emptied_after && !dropped(stop_op)) {
        // every set present now or drawn since was there at the stop or is the one a filler was making
        u64 bound = stop_size + (drawn_at_stop >= drawn ? 0 : 0) + active_at_stop;
        u64 total = fin + (enc ? 0 : 0);
        if (total > bound)
            violation("not-stopped", "%lu sets are buffered although only %lu were there when filling was stopped and %u calls were filling", (unsigned long)total, (unsigned long)stop_size, active_at_stop);
        // filling again without a new start adds nothing
        u32 before = cur();
        call(false, 1, 0, K);
        if (cur() != before)
            violation("not-stopped", "filling after a stop added %d sets", (int)(cur() - before));
    } else if (!stopped && !emptier && !drawers && !enc && !resize && fin < M && !dropped(th[0][0].id))
        violation("not-filled", "filling ended with %u of %u sets although nobody stopped it or took any", fin, M);
    call(false, 2, 0, K);
    if (g.chance(0.5))
        check_triples(sup, " after concurrent use");
    call(false, 3, 0, K);
    if (cur() != 0 || draw2() || draw1())
        violation("not-empty", "values are left after stopping and emptying");
    // and everything works again
    call(false, 0, 2, K);
    call(false, 1, 0, K);
    if (cur() != 2)
        violation("size", "after a restart with maximum 2 the buffers hold %u sets", cur());
    eval(3);
    sample(fmt("%u fillers, %u drawers, maximum %u (%s), %s%s%s", fillers, drawers, M, resize ? "resized" : "fixed", stopper ? "stopped " : "", emptier ? "emptied " : "", enc ? "encrypting" : ""));
    (void)stop_end;
}
void p06(u32)
{
    Rng g = gen(6);
    GenOpt go;
    go.max_con = 1;
    go.max_sel = 2;
    go.max_elected = 1;
    go.max_style = 1;
    Election e = gen_election(g, go);
    if (g.chance(0.35))
        p06_seq(g, e);
    else {
        cfg.race_fatal = true;
        if (g.chance(0.3))
            cfg.p_stall = 0.0005;
        p06_par(g, e);
    }
}
// ================================================================ P07
struct Limbs {
    std::map<u64, S> limb;
    // 64 aligned bits of two secrets never coincide by chance
    void add(const Z &z, int n, const S &who)
    {
        S b = orc::bytes(z, (size_t)n * 8);
        for (int i = 0; i < n; i++) {
            u64 v;
            memcpy(&v, b.data() + i * 8, 8);
            if (n == 4 && i == 3)
                v &= ~0ull >> 8; // the lowest byte is thinned out by design
            if (v == 0 || v == ~0ull)
                violation("predictable", "%s contains 64 constant bits", who.c_str());
            u64 k = mix2(v, n == 4 ? i : 1000);
            auto it = limb.find(k);
            if (it != limb.end())
                violation("repeated", "%s shares 64 bits with %s", who.c_str(), it->second.c_str());
            limb[k] = who;
        }
    }
};
void p07(u32)
{
    Rng g = gen(7);
    GenOpt go;
    go.max_con = 1;
    go.max_sel = 2;
    go.max_elected = 1;
    go.max_style = 1;
    Election e = gen_election(g, go);
    u32 nt = (u32)(g.chance(0.5) ? 1 : g.range(2, 3));
    u32 per = (u32)g.range(3, 9);
    struct Op { u32 id; int kind; VBal v; bool stall; };
    V<V<Op>> th(nt);
    u32 ops = 0;
    VBal same_v = gen_ballot(g, e.m, "same", BalOpt());
    double pf = g.chance(0.25) ? 0 : 0.45;
    for (auto &t : th)
        for (u32 i = 0; i < per; i++)
            t.push_back({ops++, (int)g.below(10), same_v, g.chance(0.4)});
    sh->ops = ops;
    if (spec.warm)
        warm_tables(e.c.K);
    start(0);
    Limbs L, LP;
    UP<eg::EncryptionDevice> dev;
    UP<eg::EncryptionMediator> med;
    lib([&] {
        build(e, true, false);
        dev = std::make_unique<eg::EncryptionDevice>(1, 2, 3, "here");
        med = std::make_unique<eg::EncryptionMediator>(*e.im, *e.ctx, *dev);
        PB::init(2);
    });
    auto *K = e.ctx->getElGamalPublicKey();
    std::map<int, u64> base; // bytes consumed by an undisturbed operation
    auto secrets = [](int kind) { return kind <= 2 ? 1 : kind == 3 ? 4 : 2; };
    auto once = [&](Op &op, bool fault, u64 &bytes, bool &hit) {
        V<std::pair<S, Z>> qs, ps;
        UP<eg::CiphertextBallot> b;
        UP<eg::CompactCiphertextBallot> cb;
        u64 before = (u64)rng_log().size();
        if (fault)
            arm_faults(0, pf);
        S id = fmt("operation %u", op.id);
        bool drewset = false;
        Res x = lib([&] {
            switch (op.kind) {
            case 0: case 1: {
                auto q = eg::rand_q();
                Host h;
                qs.push_back({"random exponent of " + id, zq(*q)});
                break;
            }
            case 2: {
                auto q = eg::rand_p();
                Host h;
                ps.push_back({"random group element of " + id, zp(*q)});
                break;
            }
            case 3: {
                eg::Triple t(*K);
                eg::Quadruple q(*K);
                Host h;
                qs.push_back({"precomputed exponent of " + id, zq(*t.get_exp())});
                qs.push_back({"precomputed exponent of " + id, zq(*q.get_exp1())});
                qs.push_back({"precomputed exponent of " + id, zq(*q.get_exp2())});
                drewset = true;
                break;
            }
            case 4: b = med->encrypt(*mk(op.v), false); break;
            case 5: b = eg::encryptBallot(*mk(op.v), *e.im, *e.ctx, *mkq(11), nullptr, 1000, false); break;
            case 6: cb = eg::encryptCompactBallot(*mk(op.v), *e.im, *e.ctx, *mkq(11), nullptr, 1000, false); break;
            case 7: cb = med->compactEncrypt(*mk(op.v), false); break;
            case 8: {
                eg_ciphertext_ballot_t *o = nullptr;
                auto pt = mk(op.v);
                auto sd = mkq(11);
                if (eg_encrypt_ballot((eg_plaintext_ballot_t *)pt.get(), (eg_internal_manifest_t *)e.im.get(), (eg_ciphertext_election_context_t *)e.ctx.get(), (eg_element_mod_q_t *)sd.get(), false, &o) != 0)
                    throw std::runtime_error("status");
                b.reset((eg::CiphertextBallot *)o);
                break;
            }
            case 9: {
                auto k = eg::ElGamalKeyPair::fromSecret(*eg::rand_q());
                Host h;
                qs.push_back({"generated key of " + id, zq(*k->getSecretKey())});
                break;
            }
            }
        });
        (void)drewset;
        hit = disarm_faults();
        bytes = (u64)rng_log().size() - before;
        if (b) {
            Bal o = ex(*b);
            qs.push_back({"ballot nonce of " + id, o.nonce});
            for (auto &c : o.cons)
                for (auto &s : c.sels) {
                    qs.push_back({"nonce of " + id, s.nonce});
                    int64_t vote = orc::decrypt(s.pad, s.data, e.c, 1);
                    qs.push_back({"proof commitment of " + id, orc::modq(vote == 1 ? s.v1 - s.c1 * s.nonce : s.v0 - s.c0 * s.nonce)});
                    qs.push_back({"simulated challenge of " + id, vote == 1 ? s.c0 : s.c1});
                }
            Lib l;
            b.reset();
        }
        if (cb) {
            qs.push_back({"ballot nonce of " + id, zq(*cb->getNonce())});
            Lib l;
            cb.reset();
        }
        for (auto &q : qs) {
            if (q.second <= 0 || q.second >= orc::Q)
                violation("range", "%s is out of range", q.first.c_str());
            L.add(q.second, 4, q.first);
            eval();
        }
        for (auto &q : ps) {
            if (q.second <= 0 || q.second >= orc::P)
                violation("range", "%s is out of range", q.first.c_str());
            LP.add(q.second, 64, q.first);
            eval();
        }
        return x;
    };
    // undisturbed baselines, one thread
    for (int k = 0; k < 10; k++) {
        Op op{CTX_NONE, k, same_v, false};
        u64 n = 0;
        bool hit;
        bool used = false;
        for (auto &t : th)
            for (auto &o : t)
                used |= o.kind == k;
        if (!used)
            continue;
        Res x = once(op, false, n, hit);
        if (!x.ok)
            violation("failed", "operation kind %d failed without any fault: %s", k, x.err.c_str());
        if (n < 32u * (u64)secrets(k))
            violation("not-fresh", "operation kind %d generated a secret from %lu fresh bytes of the random source", k, (unsigned long)n);
        base[k] = n;
        eval();
    }
    auto run = [&](u32 t) {
        for (auto &op : th[t]) {
            if (dropped(op.id))
                continue;
            ctx(op.id);
            u64 arg;
            if (plan(F_CLOCK_STALL, 0.3, 2, &arg)) {
                fired(F_CLOCK_STALL);
                clock_stall(arg);
            }
            if (plan(F_CLOCK_JUMP, 0.2, 1u << 30, &arg)) {
                fired(F_CLOCK_JUMP);
                clock_jump(((int64_t)(arg % 200001) - 100000) * 1000000000ll);
            }
            u64 n = 0;
            bool hit = false;
            Res x = once(op, pf > 0, n, hit);
            eval();
            if (!x.ok && !hit)
                violation("failed", "an operation failed although the random source worked: %s", x.err.c_str());
            if (!x.standard)
                violation("nonstandard", "a failing random source caused a non-standard exception");
            if (!x.ok) {
                probe(PR_RNG_FAIL_CLOSED);
                // and works again afterwards
                x = once(op, false, n, hit);
                if (!x.ok)
                    violation("failed", "the operation still failed after the random source had recovered: %s", x.err.c_str());
            } else if (hit)
                probe(PR_RNG_OK_AFTER);
            if (nt == 1 && n < base[op.kind])
                violation("missing-bytes", "operation kind %d succeeded with %lu bytes from the random source where %lu are needed", op.kind, (unsigned long)n, (unsigned long)base[op.kind]);
        }
        ctx(CTX_NONE);
    };
    if (nt == 1)
        run(0);
    else {
        u64 b0 = (u64)rng_log().size();
        V<int> t;
        for (u32 i = 0; i < nt; i++)
            t.push_back(spawn([&, i] { run(i); }));
        for (int x : t)
            join(x);
        u64 need = 0;
        for (auto &v : th)
            for (auto &o : v)
                if (!dropped(o.id))
                    need += base[o.kind];
        if ((u64)rng_log().size() - b0 < need)
            violation("missing-bytes", "%u threads generated their secrets from %lu bytes of the random source where %lu are needed", nt, (unsigned long)((u64)rng_log().size() - b0), (unsigned long)need);
    }
    sample(fmt("%u threads, %u operations each, fault probability %.2f", nt, per, pf));
}
// ================================================================ P08
void p08(u32)
{
    cfg.race_fatal = true;
    Rng g = gen(8);
    struct Base { Z v; UP<eg::ElementModP> e; bool fixed; };
    int nb = (int)g.range(1, 4);
    V<Base> bs;
    for (int i = 0; i < nb; i++) {
        Base b;
        switch (g.below(6)) {
        case 0: b.v = orc::G; break;
        case 1: b.v = key((int)g.below(NKEY)).K; break;
        case 2: b.v = (unsigned long)g.range(1, 300); break;
        case 3: b.v = orc::P - (unsigned long)g.range(1, 5); break;
        case 4: b.v = orc::from_bytes(orc::sha256(std::to_string(g.next()))) % orc::P; break; // many leading zero bytes
        default: {
            S s;
            for (int j = 0; j < 16; j++)
                s += orc::sha256(std::to_string(g.next()));
            b.v = orc::from_bytes(s) % orc::P;
        }
        }
        b.fixed = g.chance(0.85);
        bs.push_back(std::move(b));
    }
    auto gen_exp = [](Rng &g) {
        Z e;
        switch (g.below(8)) {
        case 0: e = (unsigned long)g.below(4); break;
        case 1: e = orc::Q - 1 - (unsigned long)g.below(3); break;
        case 2: e = Z(1) << (unsigned)g.below(256); break;
        case 3: { // few bytes set
            S b(32, 0);
            for (int i = 0; i < 3; i++)
                b[g.below(32)] = (char)g.next();
            e = orc::from_bytes(b);
            break;
        }
        case 4: e = (Z(1) << (unsigned)g.range(1, 256)) - 1; break;
        default: e = orc::from_bytes(orc::sha256(std::to_string(g.next())));
        }
        return orc::modq(e);
    };
    u32 nt = (u32)(g.chance(0.3) ? 1 : g.range(2, 4)), per = (u32)g.range(1, 4);
    struct Op { u32 id; int base, how; Z e; bool big; };
    V<V<Op>> th(nt);
    u32 ops = 0;
    for (auto &t : th)
        for (u32 i = 0; i < per; i++) {
            Op o{ops++, (int)g.below(nb), (int)g.below(9), gen_exp(g), false};
            if (g.chance(0.06)) {
                S s;
                for (int j = 0; j < 16; j++)
                    s += orc::sha256(std::to_string(g.next()));
                o.e = orc::from_bytes(s) % orc::P;
                o.big = true;
            }
            t.push_back(o);
        }
    sh->ops = ops;
    double pa = g.chance(0.4) ? 0.4 : 0;
    if (spec.warm)
        warm_tables(bs[0].v);
    start(0);
    for (auto &b : bs) {
        b.e = mkp(b.v);
        b.e->setIsFixedBase(b.fixed);
        if (!spec.warm)
            probe(PR_TABLE_COLD);
    }
    // a shared element whose value is replaced: its cached form has to follow
    auto run = [&](u32 t) {
        for (auto &op : th[t]) {
            if (dropped(op.id))
                continue;
            ctx(op.id);
            auto &b = bs[op.base];
            for (int attempt = 0; attempt < 2; attempt++) {
                UP<eg::ElementModP> r;
                Z want, bv = b.v;
                UP<eg::ElementModQ> q;
                UP<eg::ElementModP> p;
                if (op.big)
                    p = mkp(op.e);
                else
                    q = mkq(op.e);
                UP<eg::ElementModP> own;
                if (op.how == 6 || op.how == 7)
                    own = mkp(bs[(op.base + 1) % bs.size()].v);
                int st = 0;
                eg_element_mod_p_t *cr = nullptr;
                arm_faults(attempt ? 0 : pa, 0);
                Res x = lib([&] {
                    if (op.big) {
                        if (op.how == 0) {
                            r = eg::g_pow_p(*p);
                            bv = orc::G;
                        } else
                            r = eg::pow_mod_p(*b.e, *p);
                        return;
                    }
                    switch (op.how) {
                    case 0: case 1:
                        r = eg::g_pow_p(*q);
                        bv = orc::G;
                        break;
                    case 2: { // through a copy
                        auto c = b.e->clone();
                        r = eg::pow_mod_p(*c, *q);
                        break;
                    }
                    case 3: { // a base switched on only now
                        auto c = b.e->clone();
                        c->setIsFixedBase(!b.fixed);
                        r = eg::pow_mod_p(*c, *q);
                        break;
                    }
                    case 4:
                        st = eg_element_mod_q_pow_mod_p((eg_element_mod_p_t *)b.e.get(), (eg_element_mod_q_t *)q.get(), &cr);
                        break;
                    case 6: { // an element that already stood for something else
                        own->setIsFixedBase(true);
                        own->toHex();
                        *own = *b.e;
                        own->setIsFixedBase(true);
                        r = eg::pow_mod_p(*own, *q);
                        break;
                    }
                    case 7: { // used, then given another value
                        own->setIsFixedBase(true);
                        eg::pow_mod_p(*own, *q);
                        *own = *b.e;
                        r = eg::pow_mod_p(*own, *q);
                        break;
                    }
                    default: r = eg::pow_mod_p(*b.e, *q);
                    }
                });
                bool hit = disarm_faults();
                if (op.how == 4 && !op.big) {
                    if (st != 0)
                        x.ok = false, x.err = fmt("status %d", st);
                    else
                        r.reset((eg::ElementModP *)cr);
                }
                eval();
                if (!x.ok) {
                    if (!hit)
                        violation("pow-failed", "an exponentiation failed without any fault: %s", x.err.c_str());
                    if (!x.standard)
                        violation("nonstandard", "a non-standard exception");
                    probe(PR_FAULT_RETRY);
                    continue;
                }
                want = orc::powm(bv, op.e);
                if (zp(*r) != want)
                    violation("wrong-power", "%s base raised to exponent %s is wrong (way %d, %s)", b.fixed ? "accelerated" : "plain", op.e < 100000 ? op.e.get_str().c_str() : op.big ? "of the size of P" : "of the size of Q", op.how, attempt ? "after a failed attempt" : "first attempt");
                Lib l;
                r.reset();
                break;
            }
        }
        ctx(CTX_NONE);
    };
    if (nt == 1)
        run(0);
    else {
        probe(PR_FIRST_USE);
        V<int> t;
        for (u32 i = 0; i < nt; i++)
            t.push_back(spawn([&, i] { run(i); }));
        for (int x : t)
            join(x);
    }
    sample(fmt("%u threads, %d bases, %u exponentiations each, %s tables", nt, nb, per, spec.warm ? "one warm" : "cold"));
}
} // namespace scen
