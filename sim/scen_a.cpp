// Scenarios built on the polling place: P01 P02 P04 P05 P09 P12 P13 P14 P18
#include "place.h"
#include "art.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>
#include <unistd.h>
namespace scen {
Z nonce_at(const Z &seed, const Z &header, u64 i)
{
    Z s = orc::H().z(seed).z(header).done();
    return orc::H().z(s).u(i).done();
}
void count_precomp(const Place &p, const Bal &b)
{
    u64 pre = 0, plain = 0;
    for (auto &c : b.cons)
        for (auto &s : c.sels)
            (s.nonce == nonce_at(s.desc, c.nonce, s.seq) ? plain : pre)++;
    probe(PR_PRECOMP_SEL, pre);
    probe(PR_PLAIN_SEL, plain);
    if (pre && plain)
        probe(PR_MIXED_BALLOT);
    (void)p;
}
void begin(Place &p, Rng g, const PlaceOpt &o, u32 inc)
{
    p.plan_all(g, o);
    if (spec.warm)
        warm_tables(p.e.c.K);
    start(inc);
    p.open();
}
void expand_all(Place &p, bool fatal, const std::function<void(Emitted &, const Bal &, eg::CiphertextBallot &)> &f)
{
    for (auto &em : p.out)
        if (em.compact && em.cobj) {
            UP<eg::CiphertextBallot> full;
            Res x = lib([&] { full = eg::expandCompactCiphertextBallot(*em.cobj, *p.e.im, *p.e.ctx); });
            probe(PR_EXPAND);
            if (!x.ok) {
                if (fatal)
                    violation("expand-refused", "a compact ballot could not be expanded: %s", x.err.c_str());
                continue;
            }
            Bal b = ex(*full);
            f(em, b, *full);
            Lib l;
            full.reset();
        }
}
void describe(Place &p)
{
    sample(fmt("%zu contests, %zu styles, %zu stations, %u operations, %zu devices, buffers %s prefill %u filler steps %zu; %zu ballots emitted", p.e.m.cons.size(), p.e.m.styles.size(), p.work.size(), p.nops, p.devs.size(), p.buffers ? "on" : "off", p.prefill, p.fill.size(), p.out.size()));
}
// ================================================================ P01
void p01(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(1);
    o.refusal_fatal = true;
    o.max_threads = g.chance(0.4) ? 1 : 3;
    o.p_alloc = g.chance(0.3) ? 0.2 : 0;
    o.p_rng = g.chance(0.2) ? 0.2 : 0;
    o.p_bad = 0.1;
    o.p_verify = 0.15;
    o.g.max_sel = g.chance(0.2) ? 6 : 4;
    o.b.wild = g.chance(0.3);
    o.b.p_over = 0.2;
    Place p;
    begin(p, g, o, inc);
    p.on_emit = [&](Emitted &em) {
        if (em.compact)
            return;
        count_precomp(p, em.b);
        S why = check_choices(p.e.m, em.v, em.b, p.e.c);
        eval();
        if (why.size())
            violation("choices", "ballot %s (interface %d): %s", em.v.id.c_str(), em.api, why.c_str());
    };
    p.run_stations();
    expand_all(p, true, [&](Emitted &em, const Bal &b, eg::CiphertextBallot &) {
        S why = check_choices(p.e.m, em.v, b, p.e.c);
        eval();
        if (why.size())
            violation("choices", "compact ballot %s expanded (interface %d): %s", em.v.id.c_str(), em.api, why.c_str());
    });
    // single contests through the contest interface
    Rng q = gen(101);
    if (q.chance(0.5)) {
        VBal v = gen_ballot(q, p.e.m, "single", o.b);
        auto exp = expect(p.e.m, v);
        for (auto &c : v.cons) {
            UP<eg::CiphertextBallotContest> k;
            Res x = lib([&] {
                auto pt = mk(v);
                for (auto &pc : pt->getContests())
                    if (pc.get().getObjectId() == c.id)
                        for (auto &d : p.e.im->getContests())
                            if (d.get().getObjectId() == c.id)
                                k = eg::encryptContest(pc.get(), *p.e.im, d.get(), *p.e.ctx->getElGamalPublicKey(), *p.e.ctx->getCryptoExtendedBaseHash(), *mkq(q.next()), false);
            });
            if (!x.ok)
                violation("refused", "a well-formed contest was refused: %s", x.err.c_str());
            if (!k)
                continue;
            orc::Con oc = ex(*k);
            for (auto &e : exp)
                if (e.id == c.id) {
                    if (oc.sels.size() != e.sels.size())
                        violation("choices", "contest interface: %zu selections instead of %zu", oc.sels.size(), e.sels.size());
                    for (size_t j = 0; j < e.sels.size(); j++)
                        if (orc::decrypt(oc.sels[j].pad, oc.sels[j].data, p.e.c, 4) != e.votes[j] || oc.sels[j].id != e.sels[j].id)
                            violation("choices", "contest interface: selection %s decrypts to something else than the voter's choice %d", e.sels[j].id.c_str(), e.votes[j]);
                    eval();
                }
        }
    }
    describe(p);
}
// ================================================================ P02
static bool lib_valid(Place &p, eg::CiphertextBallot &b, const char *what)
{
    bool ok = false;
    Res x = lib([&] { ok = b.isValidEncryption(*p.e.ctx->getManifestHash(), *p.e.ctx->getElGamalPublicKey(), *p.e.ctx->getCryptoExtendedBaseHash()); });
    if (!x.ok)
        violation("verify-threw", "verifying %s threw: %s", what, x.err.c_str());
    return ok;
}
void p02(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(2);
    o.max_threads = g.chance(0.5) ? 1 : 3;
    o.max_ballots = 2;
    o.g.max_con = 2;
    o.g.max_sel = 3;
    o.p_verify = 0.2;
    o.p_buffers = 0.75;
    Place p;
    begin(p, g, o, inc);
    auto full = [&](const Bal &b, const char *what) {
        S why = orc::verify(b, p.e.c, spec.seed);
        eval();
        if (why.size())
            violation("proof", "%s: independent verification rejects it: %s", what, why.c_str());
    };
    p.on_emit = [&](Emitted &em) {
        if (em.compact)
            return;
        count_precomp(p, em.b);
        full(em.b, "emitted ballot");
    };
    p.on_fail = [&](Place &, Place::Op &, const Res &x, bool faulted) {
        if (!faulted && x.err.find("validity") != S::npos)
            violation("self-rejected", "the library's own verification rejected a ballot it just encrypted: %s", x.err.c_str());
    };
    p.run_stations();
    Rng q = gen(102);
    int budget = 3;
    auto follow = [&](eg::CiphertextBallot &obj, const Bal &b) {
        if (budget-- <= 0)
            return;
        if (!lib_valid(p, obj, "an emitted ballot"))
            violation("own-verify", "the library's own verification rejects an emitted ballot");
        eval();
        // copies and storage, chained in random order
        UP<eg::CiphertextBallot> cur;
        S hist;
        for (int i = 0, n = (int)q.range(1, 3); i < n; i++) {
            int k = (int)q.below(5);
            int fm = (int)q.below(FM_N);
            bool non = q.chance(0.5);
            Res x = lib([&] {
                eg::CiphertextBallot &src = cur ? *cur : obj;
                UP<eg::CiphertextBallot> nx;
                switch (k) {
                case 0: nx = load_ballot(store(src, fm, non), fm); break;
                case 1: {
                    auto sb = eg::SubmittedBallot::from(src, q.chance(0.5) ? eg::BallotBoxState::cast : eg::BallotBoxState::spoiled);
                    nx = std::move(sb);
                    break;
                }
                case 2: {
                    auto sb = eg::SubmittedBallot::from(src, eg::BallotBoxState::cast);
                    nx = load_submitted(store(*sb, fm), fm);
                    break;
                }
                default: nx = std::make_unique<eg::SubmittedBallot>(src, eg::BallotBoxState::spoiled);
                }
                cur = std::move(nx);
            });
            hist += fmt(" %s", k == 0 ? "store+reload" : k == 1 ? "submit" : k == 2 ? "submit+store+reload" : "copy");
            if (!x.ok)
                violation("copy-failed", "copying or reloading an emitted ballot failed after%s: %s", hist.c_str(), x.err.c_str());
        }
        probe(PR_RELOAD);
        Bal c = ex(*cur);
        Bal ref = b;
        c.state = ref.state = 0;
        S why;
        if (!orc::eq(ref, c, false, why)) {
            S v = orc::verify(c, p.e.c, spec.seed);
            if (v.size())
                violation("proof-after-copy", "after%s the ballot no longer verifies: %s (changed field: %s)", hist.c_str(), v.c_str(), why.c_str());
        }
        eval();
        if (!lib_valid(p, *cur, "a copied or reloaded ballot"))
            violation("own-verify-after-copy", "after%s the library's own verification rejects the ballot", hist.c_str());
        Lib l;
        cur.reset();
    };
    for (auto &em : p.out)
        if (em.obj)
            follow(*em.obj, em.b);
    expand_all(p, false, [&](Emitted &, const Bal &b, eg::CiphertextBallot &f) {
        if (budget <= 0)
            return;
        full(b, "expanded compact ballot");
        follow(f, b);
    });
    describe(p);
}
// ================================================================ P04
void p04(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(4);
    o.min_threads = 1;
    o.max_threads = g.chance(0.3) ? 1 : 4;
    o.max_ballots = 4;
    o.max_dev = 2;
    o.g.max_con = 2;
    o.g.max_sel = 2;
    o.g.max_elected = 1;
    o.apis = 1u << A_MED_NV | 1u << A_MED_COMPACT_NV | 1u << A_C_MED | 1u << A_C_MED_COMPACT | (g.chance(0.2) ? 1u << A_MED | 1u << A_FREE | 1u << A_C_MED_COMPACT_V : 0);
    o.p_alloc = g.chance(0.5) ? 0.3 : 0;
    o.p_rng = g.chance(0.3) ? 0.3 : 0;
    o.p_bad = 0.25;
    o.p_clock = 0.3;
    Place p;
    begin(p, g, o, inc);
    p.run_stations();
    std::map<int, V<Emitted *>> by;
    for (auto &em : p.out)
        if (em.dev >= 0)
            by[em.dev].push_back(&em);
    // a station stopped and resumed: the mediator keeps its place in the chain
    for (auto &kv : by) {
        auto &d = p.devs[kv.first];
        auto &v = kv.second;
        Z cur = orc::device_hash(d.uuid, d.sess, d.launch, d.loc);
        std::map<Z, Emitted *> byseed;
        for (auto *em : v) {
            if (byseed.count(em->b.seed))
                violation("fork", "device %d: ballots %s and %s share one seed: the chain forks", kv.first, byseed[em->b.seed]->v.id.c_str(), em->v.id.c_str());
            byseed[em->b.seed] = em;
        }
        V<Emitted *> order;
        for (size_t i = 0; i < v.size(); i++) {
            if (!byseed.count(cur))
                violation("gap", "device %d: after %zu of %zu ballots no ballot carries the seed %s", kv.first, i, v.size(), i ? "given by the code of the previous ballot" : "given by the device hash");
            auto *em = byseed[cur];
            byseed.erase(cur);
            order.push_back(em);
            cur = em->b.code;
            probe(PR_CHAIN_LINKS);
            if (em->after_fail)
                probe(PR_CHAIN_AFTER_FAIL);
        }
        for (size_t i = 0; i < order.size(); i++)
            for (size_t j = i + 1; j < order.size(); j++)
                if (order[j]->t1 < order[i]->t0)
                    violation("order", "device %d: ballot %s was emitted before the call for %s began but follows it in the chain", kv.first, order[j]->v.id.c_str(), order[i]->v.id.c_str());
        eval(v.size());
    }
    for (auto &em : p.out)
        if (!em.compact && em.b.code != orc::ballot_code(em.b.seed, em.b.ts, orc::bal_hash(em.b)))
            violation("code", "ballot %s: its code is not the specified hash of seed, timestamp and ballot hash", em.v.id.c_str());
    for (auto &em : p.out)
        if (em.dev < 0 && em.b.seed != em.seed)
            violation("seed", "ballot %s: seed differs from the one the caller gave", em.v.id.c_str());
    // compact ballots: the code is checked against the expanded ballot
    int n = 0;
    for (auto &em : p.out)
        if (em.compact && n < 2) {
            n++;
            UP<eg::CiphertextBallot> full;
            Res x = lib([&] {
                auto pt = eg::expandCompactPlaintextBallot(*em.cobj->getPlaintext(), *p.e.im);
                eg::PrecomputeBufferContext::empty_queues();
                full = eg::encryptBallot(*pt, *p.e.im, *p.e.ctx, *em.cobj->getBallotCodeSeed(), em.cobj->getNonce()->clone(), em.cobj->getTimestamp(), false);
            });
            if (!x.ok)
                continue;
            Bal b = ex(*full);
            if (em.b.code != orc::ballot_code(em.b.seed, em.b.ts, orc::bal_hash(b)))
                violation("code", "compact ballot %s: its code is not the specified hash of seed, timestamp and ballot hash", em.v.id.c_str());
            eval();
        }
    // a new session of the same device starts over from its own device hash
    if (p.r.chance(0.3)) {
        UP<eg::EncryptionMediator> m2;
        UP<eg::CiphertextBallot> bb;
        VBal v = gen_ballot(p.r, p.e.m, "second-session", o.b);
        Res x = lib([&] {
            m2 = std::make_unique<eg::EncryptionMediator>(*p.e.im, *p.e.ctx, *p.devs[0].d);
            bb = m2->encrypt(*mk(v), false);
        });
        if (x.ok) {
            auto &d = p.devs[0];
            if (zq(*bb->getBallotCodeSeed()) != orc::device_hash(d.uuid, d.sess, d.launch, d.loc))
                violation("gap", "a new session does not start from the device hash");
            eval();
        }
    }
    describe(p);
}
// ================================================================ P05
struct Uniq {
    std::map<S, S> seen;
    void add(const char *kind, const Z &v, const S &who)
    {
        S k = S(kind) + orc::hex(v);
        auto it = seen.find(k);
        if (it != seen.end())
            violation("reuse", "%s of %s was already used by %s", kind, who.c_str(), it->second.c_str());
        seen[k] = who;
    }
};
void p05(u32 inc)
{
    cfg.race_fatal = true;
    PlaceOpt o;
    Rng g = gen(5);
    o.max_threads = g.chance(0.25) ? 1 : 3;
    o.max_ballots = 2;
    o.g.max_con = 2;
    o.g.max_sel = 3;
    o.p_buffers = 1;
    o.p_filler = 0.9;
    o.p_alloc = g.chance(0.2) ? 0.15 : 0;
    o.apis = 1u << A_MED_NV | 1u << A_FREE | 1u << A_C_MED | 1u << A_C_FREE | 1u << A_FREE_NONCE;
    o.p_verify = 0;
    Place p;
    begin(p, g, o, inc);
    auto &K = p.e.c;
    std::shared_ptr<Uniq> u = std::make_shared<Uniq>();
    // a consumer drawing values directly, as the encryption does
    struct Draw { int kind; Z e, ge, ke, e1, e2, g1, gk; Z t1e, t1g, t1k, t2e, t2g, t2k; };
    V<Draw> draws;
    V<int> tids;
    int nd = g.chance(0.6) ? (int)g.range(1, 2) : 0;
    u32 base = p.nops;
    u32 per = (u32)g.range(1, 5);
    p.nops += nd * per;
    sh->ops = p.nops;
    for (int t = 0; t < nd; t++)
        tids.push_back(spawn([&, t] {
            Rng q = gen(500 + t);
            for (u32 i = 0; i < per; i++) {
                bool trip = q.chance(0.4);
                if (dropped(base + t * per + i))
                    continue;
                ctx(base + t * per + i);
                UP<eg::Triple> a;
                UP<eg::TwoTriplesAndAQuadruple> b;
                arm_faults(o.p_alloc, 0);
                Res x = lib([&] {
                    if (trip)
                        a = eg::PrecomputeBufferContext::getTriple();
                    else
                        b = eg::PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
                });
                bool hit = disarm_faults();
                if (!x.ok && !hit)
                    violation("draw-failed", "drawing from the buffers failed without any fault: %s", x.err.c_str());
                Draw d;
                d.kind = 0;
                if (a) {
                    d.kind = 1;
                    d.t1e = zq(*a->get_exp());
                    d.t1g = zp(*a->get_g_to_exp());
                    d.t1k = zp(*a->get_pubkey_to_exp());
                }
                if (b) {
                    d.kind = 2;
                    auto t1 = b->get_triple1(), t2 = b->get_triple2();
                    auto qd = b->get_quad();
                    d.t1e = zq(*t1->get_exp());
                    d.t1g = zp(*t1->get_g_to_exp());
                    d.t1k = zp(*t1->get_pubkey_to_exp());
                    d.t2e = zq(*t2->get_exp());
                    d.t2g = zp(*t2->get_g_to_exp());
                    d.t2k = zp(*t2->get_pubkey_to_exp());
                    d.e1 = zq(*qd->get_exp1());
                    d.e2 = zq(*qd->get_exp2());
                    d.g1 = zp(*qd->get_g_to_exp1());
                    d.gk = zp(*qd->get_g_to_exp2_mult_by_pubkey_to_exp1());
                }
                {
                    Lib l;
                    a.reset();
                    b.reset();
                }
                if (d.kind) {
                    draws.push_back(d);
                    probe(PR_BUF_DRAW);
                }
            }
            ctx(CTX_NONE);
        }));
    p.run_stations();
    for (int t : tids)
        join(t);
    int n = 0;
    for (auto &d : draws) {
        S who = fmt("draw %d", n++);
        auto trip = [&](const Z &e, const Z &ge, const Z &ke) {
            if (e >= orc::Q || ge != orc::gpow(e) || ke != K.kpow(e))
                violation("wrong-triple", "%s: the handed-out triple does not belong to the public key it was made for", who.c_str());
            u->add("nonce", ge, who);
        };
        trip(d.t1e, d.t1g, d.t1k);
        if (d.kind == 2) {
            trip(d.t2e, d.t2g, d.t2k);
            if (d.g1 != orc::gpow(d.e1) || d.gk != orc::gpow(d.e2) * K.kpow(d.e1) % orc::P)
                violation("wrong-quadruple", "%s: the handed-out quadruple does not belong to the public key it was made for", who.c_str());
            u->add("nonce", d.g1, who);
            u->add("nonce", orc::gpow(d.e2), who);
        }
        eval();
    }
    for (auto &em : p.out) {
        count_precomp(p, em.b);
        for (auto &c : em.b.cons) {
            S at = em.v.id + "/" + c.id;
            u->add("nonce", c.hpad, at + " extended data");
            u->add("nonce", c.pp, at + " count proof");
            for (auto &s : c.sels) {
                S w2 = at + "/" + s.id;
                if (orc::gpow(s.nonce) != s.pad)
                    violation("wrong-value", "%s: the ciphertext does not belong to its nonce", w2.c_str());
                int64_t m = orc::decrypt(s.pad, s.data, K, 1);
                if (m < 0)
                    violation("wrong-value", "%s: the ciphertext does not belong to the public key", w2.c_str());
                u->add("nonce", s.pad, w2);
                // the simulated branch commits g^v/alpha^c; both commitments have to be new
                u->add("nonce", s.zp, w2 + " proof 0");
                u->add("nonce", s.op, w2 + " proof 1");
                u->add("response", s.v0, w2);
                u->add("response", s.v1, w2);
                u->add("challenge", s.c0, w2);
                u->add("challenge", s.c1, w2);
                eval();
            }
        }
    }
    describe(p);
}
// ================================================================ P09
void p09(u32 inc)
{
    cfg.race_fatal = true;
    PlaceOpt o;
    Rng g = gen(9);
    o.min_threads = 1;
    o.max_threads = 2;
    o.max_ballots = 1;
    o.max_dev = 1;
    o.g.max_con = 2;
    o.g.max_sel = 2;
    o.g.rich = true;
    o.refusal_fatal = true;
    o.p_verify = 0.1;
    o.p_filler = 0.4;
    o.p_buffers = 0.4;
    Place p;
    p.plan_all(g, o);
    if (spec.warm)
        warm_tables(p.e.c.K);
    start(inc);
    p.open();
    // a shared ballot made before the threads start
    UP<eg::CiphertextBallot> shared;
    UP<eg::PlaintextBallot> plain;
    VBal sv = gen_ballot(p.r, p.e.m, "shared", o.b);
    Res x0 = lib([&] {
        plain = mk(sv);
        shared = eg::encryptBallot(*plain, *p.e.im, *p.e.ctx, *mkq(7), nullptr, 0, false);
    });
    if (!x0.ok)
        violation("setup-refused", "encrypting failed: %s", x0.err.c_str());
    Bal sb = ex(*shared);
    // expected results computed by the reference model
    Z mh = p.e.c.mhash;
    V<int> tids;
    int nr = (int)g.range(1, 3);
    u32 per = (u32)g.range(1, 4), base = p.nops;
    p.nops += nr * per;
    sh->ops = p.nops;
    S ref_json[4];
    bool have[4] = {false, false, false, false};
    auto reader = [&](int t) {
        Rng q = gen(900 + t);
        for (u32 i = 0; i < per; i++) {
            int k = (int)q.below(14);
            u64 aux = q.next();
            if (dropped(base + t * per + i))
                continue;
            ctx(base + t * per + i);
            S got, want;
            Res x = lib([&] {
                switch (k) {
                case 0: got = p.e.man->crypto_hash()->toHex(); want = orc::hex(mh); break;
                case 1: got = p.e.im->getManifestHash()->toHex(); want = orc::hex(mh); break;
                case 2: got = p.e.ctx->getCryptoExtendedBaseHash()->toHex(); want = orc::hex(p.e.c.ext); break;
                case 3: got = p.e.ctx->getElGamalPublicKey()->toHex(); want = orc::hex(p.e.c.K); break;
                case 4: got = p.devs[0].d->getHash()->toHex(); want = orc::hex(orc::device_hash(p.devs[0].uuid, p.devs[0].sess, p.devs[0].launch, p.devs[0].loc)); break;
                case 5:
                    got = shared->isValidEncryption(*p.e.ctx->getManifestHash(), *p.e.ctx->getElGamalPublicKey(), *p.e.ctx->getCryptoExtendedBaseHash()) ? "valid" : "invalid";
                    want = "valid";
                    break;
                case 6: got = shared->crypto_hash_with(*p.e.ctx->getManifestHash())->toHex(); want = orc::hex(sb.hash); break;
                case 7: {
                    int fm = (int)(aux % 3);
                    S s = store(*shared, fm, false);
                    Host h;
                    if (!have[fm])
                        have[fm] = true, ref_json[fm] = s;
                    got = s == ref_json[fm] ? "same" : "different";
                    want = "same";
                    break;
                }
                case 8: got = eg::g_pow_p(*mkq(Z((unsigned long)aux)))->toHex(); { Host h; want = orc::hex(orc::gpow(Z((unsigned long)aux))); } break;
                case 9: got = eg::pow_mod_p(*p.e.ctx->getElGamalPublicKey(), *mkq(Z((unsigned long)aux)))->toHex(); { Host h; want = orc::hex(p.e.c.kpow(Z((unsigned long)aux))); } break;
                case 10: {
                    S s = p.e.man->toJson();
                    Host h;
                    if (!have[3])
                        have[3] = true, ref_json[3] = s;
                    got = s == ref_json[3] ? "same" : "different";
                    want = "same";
                    break;
                }
                case 11: {
                    auto c = shared->getContests();
                    auto acc = c[aux % c.size()].get().elgamalAccumulate();
                    Host h;
                    got = orc::hex(zp(*acc->getPad()));
                    want = orc::hex(sb.cons[aux % sb.cons.size()].accp);
                    break;
                }
                case 12: {
                    auto d = p.e.im->getContests();
                    auto &c = d[aux % d.size()].get();
                    got = c.crypto_hash()->toHex();
                    Host h;
                    want = orc::hex(h_con(*find_con(p.e.m, c.getObjectId())));
                    break;
                }
                case 13: {
                    auto s2 = eg::SubmittedBallot::from(*shared, eg::BallotBoxState::cast);
                    got = s2->getCryptoHash()->toHex();
                    want = orc::hex(sb.hash);
                    break;
                }
                }
            });
            probe(PR_SHARED_READ);
            if (!x.ok)
                violation("read-failed", "a read-only call (%d) on shared objects failed: %s", k, x.err.c_str());
            if (got != want)
                violation("not-linearizable", "a read-only call (%d) on shared objects gave %s, any one-at-a-time execution gives %s", k, got.substr(0, 80).c_str(), want.substr(0, 80).c_str());
            eval();
        }
        ctx(CTX_NONE);
    };
    for (int t = 0; t < nr; t++)
        tids.push_back(spawn([&, t] { reader(t); }));
    p.on_emit = [&](Emitted &em) {
        if (em.compact)
            return;
        S why = check_choices(p.e.m, em.v, em.b, p.e.c);
        if (why.empty() && em.dev < 0 && em.b.seed != em.seed)
            why = "seed differs";
        if (why.empty() && em.b.code != orc::ballot_code(em.b.seed, em.b.ts, orc::bal_hash(em.b)))
            why = "ballot code wrong";
        if (why.size())
            violation("wrong-result", "a concurrent encryption gave a result no sequential execution gives: %s", why.c_str());
        eval();
    };
    // encryptions of several threads through one mediator
    p.run_stations();
    for (int t : tids)
        join(t);
    std::set<Z> seeds;
    for (auto &em : p.out)
        if (em.dev >= 0 && !seeds.insert(em.b.seed).second)
            violation("not-linearizable", "two concurrent encryptions of one mediator got the same seed: no sequential execution does");
    describe(p);
}
// ================================================================ P12
void p12(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(12);
    o.max_threads = g.chance(0.6) ? 1 : 2;
    o.max_ballots = 3;
    o.g.max_con = 3;
    o.g.max_sel = 3;
    o.b.wild = g.chance(0.6);
    o.b.max_writein = g.chance(0.3) ? 300 : 40;
    o.b.p_over = 0.3;
    o.b.p_skip_con = 0.1;
    o.p_verify = 0.03;
    o.g.wild_text = g.chance(0.3);
    Place p;
    begin(p, g, o, inc);
    auto chk = [&](const Emitted &em, const Bal &b, const S &what) {
        S why = check_ext(p.e.m, em.v, b, p.e.c);
        eval();
        if (why.size())
            violation("sealed-data", "%s: %s", what.c_str(), why.c_str());
    };
    p.on_emit = [&](Emitted &em) {
        if (!em.compact)
            chk(em, em.b, "emitted ballot " + em.v.id);
    };
    p.run_stations();
    Rng q = gen(112);
    auto follow = [&](Emitted &em, eg::CiphertextBallot &obj, const Bal &b) {
        // every format, copies of copies
        UP<eg::CiphertextBallot> cur;
        S hist;
        for (int i = 0, n = (int)q.range(1, 4); i < n; i++) {
            int k = (int)q.below(4), fm = (int)q.below(FM_N);
            Res x = lib([&] {
                eg::CiphertextBallot &src = cur ? *cur : obj;
                UP<eg::CiphertextBallot> nx;
                if (k == 0)
                    nx = load_ballot(store(src, fm, q.chance(0.3)), fm);
                else if (k == 1)
                    nx = eg::SubmittedBallot::from(src, eg::BallotBoxState::cast);
                else {
                    auto sb = eg::SubmittedBallot::from(src, eg::BallotBoxState::spoiled);
                    nx = load_submitted(store(*sb, fm), fm);
                }
                cur = std::move(nx);
            });
            static const char *F[] = {"json", "bson", "msgpack"};
            hist += k == 0 ? fmt(" reload(%s)", F[fm]) : k == 1 ? S(" submit") : fmt(" submit+reload(%s)", F[fm]);
            if (!x.ok)
                violation("reload-failed", "after%s: %s", hist.c_str(), x.err.c_str());
        }
        probe(PR_RELOAD);
        Bal c = ex(*cur);
        chk(em, c, "after" + hist);
        // the library opens what the reference opens, and refuses what was altered
        auto e = expect(p.e.m, em.v);
        size_t ci = q.below(e.size());
        auto cs = cur->getContests();
        UP<eg::HashedElGamalCiphertext> h;
        V<u8> got;
        auto sk = mkq(p.e.c.s), hdr = mkq(p.e.c.ext);
        Res x = lib([&] {
            h = cs[ci].get().getHashedElGamalCiphertext();
            got = h->decrypt(*sk, *hdr, true);
        });
        S want = e[ci].ext.substr(0, 510);
        if (!x.ok || str(got) != want)
            violation("own-open", "the library opens the sealed data to '%s' instead of '%s' %s", str(got).substr(0, 100).c_str(), want.substr(0, 100).c_str(), x.err.c_str());
        eval();
        for (int i = 0; i < 3; i++) {
            fired(F_TAMPER);
            auto data = h->getData(), mac = h->getMac();
            Z pad = zp(*h->getPad()), key2 = p.e.c.s, hd2 = p.e.c.ext;
            int k = (int)q.below(7);
            switch (k) {
            case 0: data[q.below(data.size())] ^= 1u << q.below(8); break;
            case 1: mac[q.below(mac.size())] ^= 1u << q.below(8); break;
            case 2: pad = pad * orc::G % orc::P; break;
            case 3: key2 = orc::modq(key2 + 1 + (unsigned long)q.below(5)); break;
            case 4: hd2 = orc::modq(hd2 + 1); break;
            case 5: data.resize(data.size() - 32); break;
            case 6: mac.resize(q.below(mac.size())); break;
            }
            V<u8> out;
            Res y = lib([&] {
                eg::HashedElGamalCiphertext t(mkp(pad), data, mac);
                out = t.decrypt(*mkq(key2), *mkq(hd2), true);
            });
            if (y.ok)
                violation("altered-opened", "sealed data was opened although %s was altered", k == 0 ? "a ciphertext bit" : k == 1 ? "a bit of the authentication code" : k == 2 ? "the pad" : k == 3 ? "the key" : k == 4 ? "the election" : k == 5 ? "its length" : "the length of the authentication code");
            if (!y.standard)
                violation("nonstandard", "non-standard exception");
            probe(PR_TAMPER_REFUSED);
            eval();
        }
        Lib l;
        h.reset();
        cur.reset();
        (void)b;
    };
    for (auto &em : p.out)
        if (em.obj)
            follow(em, *em.obj, em.b);
    expand_all(p, false, [&](Emitted &em, const Bal &b, eg::CiphertextBallot &f) {
        chk(em, b, "expanded compact ballot " + em.v.id);
        follow(em, f, b);
    });
    // the sealing interface itself: any bytes, any length, with and without room
    for (int i = 0; i < 6; i++) {
        size_t n = q.chance(0.3) ? q.range(500, 520) : q.chance(0.2) ? q.below(1200) : q.below(60);
        V<u8> pt(n);
        for (auto &c : pt)
            c = q.chance(0.3) ? 0 : (u8)q.next();
        bool trunc = q.chance(0.5), padded = q.chance(0.8);
        if (!padded) {
            n = (n + 31) / 32 * 32;
            if (!n)
                n = 32;
            pt.resize(n);
        }
        Z nonce = orc::modq(orc::from_bytes(orc::sha256("x" + std::to_string(q.next()))));
        UP<eg::HashedElGamalCiphertext> h;
        Res x = lib([&] { h = eg::hashedElgamalEncrypt(pt, *mkq(nonce), *p.e.ctx->getElGamalPublicKey(), *mkq(p.e.c.ext), padded ? eg::BYTES_512 : eg::NO_PADDING, trunc); });
        eval();
        if (padded && n > 510 && !trunc) {
            if (x.ok)
                violation("silent-truncation", "%zu bytes were sealed into a capacity of 510 although cutting was not permitted", n);
            continue;
        }
        if (!x.ok)
            violation("seal-refused", "sealing %zu bytes failed: %s", n, x.err.c_str());
        if (padded && h->getData().size() != 512)
            violation("size", "sealed size is %zu instead of 512", h->getData().size());
        V<u8> got;
        Res y = lib([&] { got = h->decrypt(*mkq(p.e.c.s), *mkq(p.e.c.ext), padded); });
        V<u8> want(pt.begin(), pt.begin() + (padded ? std::min<size_t>(n, 510) : n));
        if (!y.ok || got != want)
            violation("own-open", "sealing %zu bytes and opening them gives %zu bytes, not the original (%s)", n, got.size(), y.err.c_str());
        if (padded) {
            S o2;
            if (!orc::open_sealed(zp(*h->getPad()), str(h->getData()), str(h->getMac()), p.e.c.s, p.e.c.ext, o2) || o2 != str(want))
                violation("sealed-data", "the reference does not open what the library sealed (%zu bytes)", n);
        }
        eval();
    }
    describe(p);
}
// ================================================================ P14
static bool contains(const S &hay, const S &needle) { return needle.size() >= 28 && hay.find(needle) != S::npos; }
static S base64(const S &b)
{
    static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    S o;
    for (size_t i = 0; i + 2 < b.size(); i += 3) { // whole groups only: the rest depends on what follows
        u32 v = (u8)b[i] << 16 | (u8)b[i + 1] << 8 | (u8)b[i + 2];
        for (int k = 18; k >= 0; k -= 6)
            o += T[v >> k & 63];
    }
    return o;
}
void p14(u32 inc, int logfd)
{
    PlaceOpt o;
    Rng g = gen(14);
    o.max_threads = g.chance(0.6) ? 1 : 3;
    o.max_ballots = 2;
    o.g.max_con = 2;
    o.g.max_sel = 3;
    o.g.rich = g.chance(0.3);
    o.p_alloc = g.chance(0.3) ? 0.3 : 0;
    o.p_rng = g.chance(0.2) ? 0.3 : 0;
    o.p_bad = 0.3;
    o.p_verify = 0.1;
    Place p;
    begin(p, g, o, inc);
    V<std::pair<S, S>> outs; // what, bytes
    V<std::pair<S, Z>> secrets;
    V<std::pair<S, S>> texts;
    p.on_fail = [&](Place &, Place::Op &op, const Res &x, bool) {
        outs.push_back({"an error message", x.err});
        if (is_nonce(op.api))
            secrets.push_back({"the nonce of a refused ballot", op.nonce});
    };
    p.run_stations();
    Rng q = gen(114);
    auto collect = [&](const Emitted &em, const Bal &b) {
        S id = em.v.id;
        secrets.push_back({"the ballot nonce of " + id, b.nonce});
        Z ns = orc::H().z(p.e.c.mhash).str(id).z(b.nonce).done();
        secrets.push_back({"the nonce seed of " + id, ns});
        for (auto &c : em.v.cons)
            for (auto &x : c.sels)
                if (x.writein.size() >= 10)
                    texts.push_back({"a write-in of " + id, x.writein});
        for (auto &c : b.cons) {
            secrets.push_back({"the contest nonce of " + id + "/" + c.id, c.nonce});
            Z sum = 0;
            for (auto &s : c.sels) {
                secrets.push_back({"the selection nonce of " + s.id, s.nonce});
                sum += s.nonce;
                int64_t vote = orc::decrypt(s.pad, s.data, p.e.c, 1);
                // the key power that hides the vote (of a zero it is the published ciphertext itself)
                if (vote == 1)
                    secrets.push_back({"the blinding factor of " + s.id, orc::powm(s.pad, p.e.c.s)});
                // the secret exponent behind the commitment of the real proof branch
                secrets.push_back({"a proof secret of " + s.id, orc::modq(vote == 1 ? s.v1 - s.c1 * s.nonce : s.v0 - s.c0 * s.nonce)});
            }
            secrets.push_back({"the aggregate nonce of " + c.id, orc::modq(sum)});
            secrets.push_back({"a proof secret of " + c.id, orc::modq(c.pv - c.pc * orc::modq(sum))});
            Z shared = orc::powm(c.hpad, p.e.c.s);
            secrets.push_back({"the blinding factor of the sealed data of " + c.id, shared});
            secrets.push_back({"the session key of the sealed data of " + c.id, orc::H().z(c.hpad).z(shared).done()});
            secrets.push_back({"the extended data nonce of " + c.id, orc::H().z(orc::H().z(c.nonce).str("constant-extended-data").done()).u(0).done()});
            secrets.push_back({"the proof nonce of " + c.id, orc::H().z(orc::H().z(c.desc).z(ns).done()).u(c.seq + 1).done()});
        }
    };
    auto no_nonces = [&](const Bal &z, const char *f) {
        V<Z> ns{z.nonce};
        for (auto &c2 : z.cons) {
            ns.push_back(c2.nonce);
            for (auto &s2 : c2.sels)
                ns.push_back(s2.nonce);
        }
        for (auto &n : ns)
            for (auto &s : secrets)
                if (n != 0 && n == s.second)
                    violation("nonce-after-publish", "a ballot published (%s) and reloaded still carries %s", f, s.first.c_str());
    };
    u32 pub = 0;
    auto publish = [&](eg::CiphertextBallot &obj) {
        pub++;
        int only = (int)q.below(5);
        for (int fm = 0; fm < FM_N; fm++) {
            if (only < FM_N && fm != only)
                continue;
            static const char *F[] = {"json", "bson", "msgpack"};
            S a, b, c, d;
            UP<eg::CiphertextBallot> re, re2;
            UP<eg::SubmittedBallot> rs;
            auto st = q.chance(0.4) ? eg::BallotBoxState::cast : q.chance(0.7) ? eg::BallotBoxState::spoiled : eg::BallotBoxState::unknown;
            bool capi = q.chance(0.5), retry = q.chance(0.2);
            auto via = [&](int kind, eg::CiphertextBallot *cb, eg::SubmittedBallot *sb) {
                Obj o;
                o.kind = kind;
                o.cb.reset(cb);
                o.sb.reset(sb);
                S r;
                try {
                    r = put(o, fm, true);
                } catch (...) {
                    o.cb.release(), o.sb.release();
                    throw;
                }
                o.cb.release(), o.sb.release();
                return r;
            };
            auto work = [&] {
                a = capi ? via(K_CIPHER, &obj, nullptr) : store(obj, fm, false);
                auto sb = eg::SubmittedBallot::from(obj, st);
                b = capi ? via(K_SUBMITTED, nullptr, sb.get()) : store(*sb, fm);
                re = load_ballot(a, fm);
                rs = load_submitted(b, fm);
                // a ballot reloaded with its nonces and then published
                re2 = load_ballot(store(obj, fm, true), fm);
                c = capi ? via(K_CIPHER, re2.get(), nullptr) : store(*re2, fm, false);
                auto sb2 = eg::SubmittedBallot::from(*re2, st);
                c += store(*sb2, fm);
                // what was published has nothing left to give away
                d = store(*re, fm, true) + store((const eg::CiphertextBallot &)*rs, fm, true) + store(*rs, fm);
            };
            u64 at = 0;
            ctx(500 + pub * 4 + fm);
            if (retry && plan(F_ALLOC, 1, 1ull << 40, &at)) { // publishing fails half way first
                arm_alloc(log_pos(at));
                Res y = lib(work);
                disarm_alloc();
                if (!y.ok)
                    outs.push_back({"an error message", y.err});
                else
                    outs.push_back({fmt("the published ballot (%s)", F[fm]), a + b + c + d});
            }
            Res x = lib(work);
            if (!x.ok)
                violation("publish-failed", "publishing a ballot failed: %s", x.err.c_str());
            const char *how = capi ? ", C interface" : "";
            outs.push_back({fmt("the published ballot (%s%s)", F[fm], how), a});
            outs.push_back({fmt("the submitted ballot (%s%s)", F[fm], how), b});
            outs.push_back({fmt("the ballot published after a reload with nonces (%s%s)", F[fm], how), c});
            outs.push_back({fmt("what is stored of a published ballot (%s)", F[fm]), d});
            no_nonces(ex(*re), F[fm]);
            no_nonces(ex((const eg::CiphertextBallot &)*rs), F[fm]);
            eval();
            Lib l;
            re.reset();
            re2.reset();
            rs.reset();
        }
        ctx(CTX_NONE);
        // refused verifications explain themselves in the log
        for (int i = 0; i < 1 && q.chance(0.4); i++) {
            int k = (int)q.below(4);
            Res x = lib([&] {
                UP<eg::CiphertextBallot> t = load_ballot(store(obj, FM_MSGPACK, true), FM_MSGPACK);
                auto cs = t->getContests();
                auto &c = cs[q.below(cs.size())].get();
                auto ss = c.getSelections();
                auto &s = ss[q.below(ss.size())].get();
                auto mh = p.e.im->getManifestHash();
                auto K = p.e.ctx->getElGamalPublicKey();
                auto h = p.e.ctx->getCryptoExtendedBaseHash();
                auto other = mkq(Z(5));
                if (k == 0)
                    t->isValidEncryption(*other, *K, *h);
                else if (k == 1)
                    t->isValidEncryption(*mh, *K, *other);
                else if (k == 2)
                    c.isValidEncryption(*other, *K, *h);
                else
                    s.isValidEncryption(*other, *K, *h);
            });
            if (!x.ok)
                outs.push_back({"an error message", x.err});
            fired(F_MISMATCH);
        }
    };
    for (auto &em : p.out) {
        collect(em, em.b);
        if (em.obj)
            publish(*em.obj);
    }
    expand_all(p, false, [&](Emitted &em, const Bal &b, eg::CiphertextBallot &f) {
        collect(em, b);
        publish(f);
    });
    Res x = lib([&] {
        outs.push_back({"the context (json)", p.e.ctx->toJson()});
        outs.push_back({"the context (bson)", str(p.e.ctx->toBson())});
        outs.push_back({"the manifest (json)", p.e.man->toJson()});
        outs.push_back({"the manifest (bson)", str(p.e.man->toBson())});
        outs.push_back({"the device (json)", p.devs[0].d->toJson()});
        outs.push_back({"the device (bson)", str(p.devs[0].d->toBson())});
        outs.push_back({"the internal manifest (json)", p.e.im->toJson()});
        outs.push_back({"the manifest (msgpack)", str(p.e.man->toMsgPack())});
    });
    if (!x.ok)
        violation("publish-failed", "publishing the election failed: %s", x.err.c_str());
    S log;
    char buf[65536];
    off_t at = 0;
    for (ssize_t n; (n = pread(logfd, buf, sizeof buf, at)) > 0; at += n)
        log.append(buf, (size_t)n);
    outs.push_back({"the log output", log});
    event(log.size());
    for (auto &s : secrets) {
        if (s.second == 0)
            continue;
        S hx = orc::hex(s.second), lo = hx, be = orc::bytes(s.second, s.second < orc::Q ? 32 : 512), le(be.rbegin(), be.rend());
        for (auto &c : lo)
            c = (char)tolower(c);
        S dec = s.second.get_str(10), b64 = base64(be);
        for (auto &o2 : outs)
            for (const S *n : {&hx, &lo, &be, &le, &dec, &b64})
                if (contains(o2.second, *n))
                    violation("leak", "%s contains %s", o2.first.c_str(), s.first.c_str());
    }
    S open;
    lib([&] { open = p.e.man->toJson(); });
    for (auto &t : texts) {
        if (open.find(t.second) != S::npos)
            continue; // says nothing
        for (auto &o2 : outs)
            if (o2.second.find(t.second) != S::npos)
                violation("leak", "%s contains %s", o2.first.c_str(), t.first.c_str());
    }
    probe(PR_SECRETS, secrets.size());
    probe(PR_OUTPUTS, outs.size());
    eval(secrets.size());
    describe(p);
}
// ================================================================ P18
void p18(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(18);
    o.max_threads = g.chance(0.5) ? 1 : 3;
    o.max_ballots = 2;
    o.p_buffers = 0.4;
    o.p_filler = 0.3;
    o.p_verify = 0.05;
    o.apis = ~0u & ((1u << A_N) - 1);
    Place p;
    p.plan_all(g, o);
    if (spec.warm)
        warm_tables(p.e.c.K);
    start(inc);
    p.open();
    std::map<S, S> pads;
    auto chk = [&](const Emitted &em, const Bal &b, bool derived, const char *what) {
        S why = check_nonces(p.e.m, em.v, b, p.e.c, derived);
        eval();
        if (why.size())
            violation("nonce", "%s %s (interface %d): %s", what, em.v.id.c_str(), em.api, why.c_str());
        if (em.gave_nonce && b.nonce != em.nonce)
            violation("nonce", "%s %s: the nonce given by the caller was not used", what, em.v.id.c_str());
    };
    p.on_emit = [&](Emitted &em) {
        if (em.compact)
            return;
        chk(em, em.b, !p.buffers, "ballot");
        count_precomp(p, em.b);
        for (auto &c : em.b.cons)
            for (auto &s : c.sels) {
                S k = orc::hex(s.pad);
                if (pads.count(k))
                    violation("nonce-shared", "%s and %s share a nonce", pads[k].c_str(), (em.v.id + "/" + s.id).c_str());
                pads[k] = em.v.id + "/" + s.id;
            }
    };
    p.run_stations();
    // re-encryption later, possibly on another thread, after other work
    Rng q = gen(118);
    lib([&] {
        eg::PrecomputeBufferContext::stop_populate();
        eg::PrecomputeBufferContext::empty_queues();
    });
    auto redo = [&](Emitted &em) {
        UP<eg::CiphertextBallot> again;
        Res x = lib([&] { again = eg::encryptBallot(*mk(em.v), *p.e.im, *p.e.ctx, *mkq(em.b.seed), mkq(em.b.nonce), em.b.ts, false); });
        if (!x.ok)
            violation("reencrypt-failed", "encrypting %s again with its nonce failed: %s", em.v.id.c_str(), x.err.c_str());
        Bal b = ex(*again);
        Emitted e2;
        e2.v = em.v;
        e2.api = em.api;
        chk(e2, b, true, "re-encrypted ballot");
        probe(PR_REENC);
        eval();
        bool must = em.compact || !p.buffers;
        if (b.seed != em.b.seed || b.ts != em.b.ts || b.nonce != em.b.nonce)
            violation("not-reproducible", "%s: seed, timestamp or nonce differ after re-encryption", em.v.id.c_str());
        if (!must)
            return;
        if (b.code != em.b.code)
            violation("not-reproducible", "%s: encrypting again with the same nonce, seed and timestamp gives another ballot code", em.v.id.c_str());
        if (em.compact)
            return;
        // proofs are randomised by design: everything else has to be the same bit for bit
        auto strip = [](Bal z) {
            for (auto &c : z.cons)
                for (auto &s : c.sels)
                    s.zp = s.zd = s.op = s.od = s.c0 = s.c1 = s.c = s.v0 = s.v1 = 0;
            return z;
        };
        S why;
        if (!orc::eq(strip(em.b), strip(b), true, why))
            violation("not-reproducible", "%s: encrypting again with the same nonce, seed and timestamp changes %s", em.v.id.c_str(), why.c_str());
    };
    if (q.chance(0.5)) {
        for (auto &em : p.out)
            redo(em);
    } else {
        V<int> tids;
        for (size_t i = 0; i < p.out.size() && i < 4; i++)
            tids.push_back(spawn([&, i] { redo(p.out[i]); }));
        for (int t : tids)
            join(t);
    }
    // nonces kept with a stored ballot open it after a reload
    for (auto &em : p.out)
        if (em.obj && q.chance(0.5)) {
            int fm = (int)q.below(FM_N);
            UP<eg::CiphertextBallot> re;
            Res x = lib([&] { re = load_ballot(store(*em.obj, fm, true), fm); });
            if (!x.ok)
                violation("reload-failed", "reloading a ballot stored with nonces failed: %s", x.err.c_str());
            chk(em, ex(*re), !p.buffers, "reloaded ballot");
            Lib l;
            re.reset();
        }
    describe(p);
}
} // namespace scen
