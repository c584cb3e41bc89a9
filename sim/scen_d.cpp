// Scenarios on stored, delivered and rebuilt artifacts: P10 P11 P13 P17 (P15: scen_e.cpp)
#include "art.h"
#include <algorithm>
#include <cstring>
#include <electionguard/ballot.h>
#include <electionguard/election.h>
#include <electionguard/elgamal.hpp>
#include <electionguard/encrypt.h>
#include <electionguard/manifest.h>
#include <map>
#include <set>
namespace scen {
// the process may die at a point of its own choosing, at most three times per run
void plan_crash(u32 inc, double p)
{
    u64 arg;
    ctx(900 + 1000 * inc);
    if (inc < 3 && plan(F_CRASH, p, 1ull << 40, &arg))
        arm_crash(log_pos(arg) * (1 + (arg >> 20) % 8));
}
S damage(const S &s, Fault &k, bool &hit)
{
    S d = s;
    u64 a;
    hit = false;
    if (s.empty())
        return d;
    if (plan(F_DISK_FLIP, 0.5, 1ull << 40, &a)) {
        k = F_DISK_FLIP;
        size_t n = 1 + (a & 3) * ((a >> 2) & 1);
        Rng q(a);
        for (size_t i = 0; i < n; i++) {
            size_t at = q.below(d.size());
            if (q.chance(0.6))
                d[at] ^= (char)(1u << q.below(8));
            else if (q.chance(0.5))
                d[at] = "0123456789ABCDEFabcdef\"{}[],:-.eEnulltrf \xff\x00\x80\xc0"[q.below(45)];
            else
                d[at] = (char)q.next();
        }
        hit = d != s;
    } else if (plan(F_DISK_DUP, 0.5, 1ull << 40, &a)) {
        k = F_DISK_DUP;
        Rng q(a);
        size_t at = q.below(d.size()), len = 1 + q.below(q.chance(0.5) ? 8 : 600);
        len = std::min(len, d.size() - at);
        S part = d.substr(at, len);
        if (q.chance(0.5))
            d.insert(at, part);
        else
            d.replace(std::min(d.size() - len, (size_t)q.below(d.size())), len, part);
        hit = d != s;
    } else if (plan(F_DISK_TORN, 0.6, 1ull << 40, &a)) {
        k = F_DISK_TORN;
        Rng q(a);
        d.resize(q.chance(0.3) ? d.size() - 1 - q.below(std::min<size_t>(d.size(), 8)) : q.below(d.size()));
        hit = true;
    }
    if (hit)
        fired(k);
    return d;
}
// ================================================================ P10
struct Store {
    Rng g;
    Election e;
    struct Dev { u64 a, b, c; S loc; } dev;
    VBal bal[2];
    bool over = true;
    u64 maxb = 1000000;
    V<std::pair<S, S>> extd;
    int ctxform = 0;
    UP<eg::EncryptionDevice> device;
    UP<eg::EncryptionMediator> med;
    UP<eg::CiphertextBallot> enc[2];
    UP<eg::CiphertextBallot> cfull[2];
    UP<eg::PlaintextBallot> cpt[2];
    u64 fill = 0;
    void model(Rng r, bool big)
    {
        g = r;
        GenOpt o;
        o.max_con = big ? 3 : 2;
        o.max_sel = big ? 4 : 2;
        o.max_elected = 2;
        o.rich = g.chance(0.7);
        o.wild_text = g.chance(0.4);
        e = gen_election(g, o);
        auto num = [&]() -> u64 { return g.chance(0.3) ? g.next() >> 1 : g.chance(0.2) ? (1ull << g.below(63)) - g.below(2) : g.chance(0.15) ? 0 : g.below(100000); };
        dev.a = num();
        dev.b = num();
        dev.c = num();
        dev.loc = gen_text(g, o.wild_text, 10);
        BalOpt b;
        b.wild = g.chance(0.5);
        b.p_over = 0.25;
        for (int i = 0; i < 2; i++)
            bal[i] = gen_ballot(g, e.m, "ballot-" + std::to_string(i) + (g.chance(0.3) ? gen_text(g, o.wild_text, 6) : ""), b);
        ctxform = (int)g.below(4);
        if (ctxform & 1) {
            over = g.chance(0.5);
            maxb = g.chance(0.2) ? 0 : g.below(1u << 31);
        }
        if (ctxform & 2)
            for (u64 i = 0, n = g.below(4); i < n; i++)
                extd.push_back({"key" + std::to_string(i) + gen_text(g, o.wild_text, 4), g.chance(0.1) ? "" : gen_text(g, o.wild_text, 20)});
        fill = g.chance(0.4) ? g.range(1, 8) : 0;
    }
    UP<eg::CiphertextElectionContext> mkcontext()
    {
        std::unordered_map<S, S> x;
        for (auto &p : extd)
            x[p.first] = p.second;
        auto &c = e.c;
        switch (ctxform) {
        case 0: return mkctx(c, false, e.c.n & 1);
        case 1: return eg::CiphertextElectionContext::make(c.n, c.k, mkp(c.K), mkq(c.commit), mkq(c.mhash), eg::ContextConfiguration::make(over, maxb));
        case 2: return eg::CiphertextElectionContext::make(c.n, c.k, orc::hex(c.K), orc::hex(c.commit), orc::hex(c.mhash), x);
        default: return eg::CiphertextElectionContext::make(c.n, c.k, mkp(c.K), mkq(c.commit), mkq(c.mhash), eg::ContextConfiguration::make(over, maxb), x);
        }
    }
    void open()
    {
        Res x = lib([&] {
            e.man = mk(e.m);
            e.im = std::make_unique<eg::InternalManifest>(*e.man);
            e.ctx = mkcontext();
            device = std::make_unique<eg::EncryptionDevice>(dev.a, dev.b, dev.c, dev.loc);
            med = std::make_unique<eg::EncryptionMediator>(*e.im, *e.ctx, *device);
            if (fill) {
                eg::PrecomputeBufferContext::init((u32)fill);
                eg::PrecomputeBufferContext::populate(*e.ctx->getElGamalPublicKey());
            }
        });
        if (!x.ok)
            violation("setup-refused", "building a well-formed election failed without any fault: %s", x.err.c_str());
    }
    void need(int i, bool compact)
    {
        if (compact ? !!cfull[i] : !!enc[i])
            return;
        Res x = lib([&] {
            auto p = mk(bal[i]);
            if (compact) {
                cpt[i] = std::move(p);
                cfull[i] = eg::encryptBallot(*cpt[i], *e.im, *e.ctx, *device->getHash(), nullptr, 1700000000 + i, false);
            } else
                enc[i] = med->encrypt(*p, false);
        });
        if (!x.ok)
            violation("refused", "a well-formed ballot was refused: %s", x.err.c_str());
    }
    // a fresh object of the kind (host scope); which: ballot and state
    Obj make(int kind, u64 which)
    {
        Obj o;
        o.kind = kind;
        int i = (int)(which & 1);
        auto st = (which >> 1) % 3 == 0 ? eg::BallotBoxState::cast : (which >> 1) % 3 == 1 ? eg::BallotBoxState::spoiled : eg::BallotBoxState::unknown;
        if (kind == K_CIPHER || kind == K_CIPHER_N || kind == K_SUBMITTED)
            need(i, false);
        if (kind == K_COMPACT)
            need(i, true);
        Res x = lib([&] {
            switch (kind) {
            case K_MAN: o.man = mk(e.m); break;
            case K_IM: o.im = std::make_unique<eg::InternalManifest>(*e.man); break;
            case K_CTX: o.ctx = mkcontext(); break;
            case K_DEV: o.dev = std::make_unique<eg::EncryptionDevice>(dev.a, dev.b, dev.c, dev.loc); break;
            case K_PLAIN: o.pt = mk(bal[i]); break;
            case K_CIPHER:
            case K_CIPHER_N: o.cb = std::make_unique<eg::CiphertextBallot>(*enc[i]); break;
            case K_SUBMITTED: o.sb = eg::SubmittedBallot::from(*enc[i], st); break;
            case K_COMPACT:
                o.cc = eg::CompactCiphertextBallot::make(*cpt[i], *cfull[i]);
                if (which & 8)
                    o.cc->setBallotBoxState(st);
                break;
            case K_COMPACT_PLAIN: o.cp = eg::CompactPlaintextBallot::make(*mk(bal[i])); break;
            }
        });
        if (!x.ok)
            violation("setup-refused", "making a %s failed without any fault: %s", KIND[kind], x.err.c_str());
        return o;
    }
    // what a reader has to see, where the model determines it ("" otherwise)
    S want(int kind, u64 which)
    {
        switch (kind) {
        case K_MAN: return canon(e.m);
        case K_IM: return canon_im(e.m);
        case K_CTX: return canon(e.c, over, maxb, extd);
        case K_DEV: return fmt("%lu %lu %lu ", dev.a, dev.b, dev.c) + json_str(dev.loc) + " " + orc::hex(orc::device_hash(dev.a, dev.b, dev.c, dev.loc));
        case K_PLAIN: return canon(bal[which & 1]);
        }
        return "";
    }
};
S diff(const S &a, const S &b)
{
    size_t i = 0, l = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        if (a[i] == '\n')
            l = i + 1;
        i++;
    }
    auto line = [&](const S &s) { return s.substr(std::min(l, s.size()), std::min<size_t>(s.find('\n', std::min(l, s.size())), s.size()) - std::min(l, s.size())).substr(0, 700); };
    return "stored: " + line(a) + " | reloaded: " + line(b);
}
struct SOp { u32 id; int kind, fm; bool capi; u64 which; bool sync; bool capi2; };
void p10(u32 inc)
{
    Rng g = gen(10);
    Store s;
    s.model(g, g.chance(0.3));
    Rng r = gen(210);
    V<SOp> ops;
    bool heavy = r.chance(0.6); // encrypted ballots take part
    int n = (int)r.range(2, heavy ? 7 : 12);
    for (int i = 0; i < n; i++) {
        SOp o;
        o.id = (u32)i;
        do {
            o.kind = (int)r.below(K_N);
        } while (!heavy && (o.kind == K_CIPHER || o.kind == K_CIPHER_N || o.kind == K_SUBMITTED || o.kind == K_COMPACT));
        o.capi = r.chance(0.4);
        do {
            o.fm = (int)r.below(FM_N);
        } while (!has_fmt(o.kind, o.fm, o.capi));
        o.which = r.next() & 255;
        o.sync = r.chance(0.3);
        o.capi2 = r.chance(0.4) && has_fmt(o.kind, o.fm, true);
        ops.push_back(o);
    }
    sh->ops = (u64)n;
    double pa = r.chance(0.4) ? 0.4 : 0;
    bool damaging = r.chance(0.6);
    if (spec.warm)
        warm_tables(s.e.c.K);
    start(inc);
    if (inc) {
        disk_crash();
        probe(PR_RESTART);
    }
    plan_crash(inc, 0.55);
    s.open();
    Rng q = gen(310 + inc);
    auto where = [&](u32 id, int &at) { // last incarnation whose record still exists
        for (int i = 5; i >= 0; i--) {
            S x;
            if (disk_read(fmt("rec/%u/%d", id, i), x)) {
                at = i;
                return true;
            }
        }
        return false;
    };
    auto put_retry = [&](const Obj &o, int fm, bool capi, double p) {
        S bytes, again;
        arm_faults(p, 0);
        Res x = lib([&] { bytes = put(o, fm, capi); });
        bool hit = disarm_faults();
        if (!x.ok && !hit)
            violation("store-failed", "storing a %s as %s%s failed: %s", KIND[o.kind], FMN[fm], capi ? " through the C interface" : "", x.err.c_str());
        if (!x.standard)
            violation("nonstandard", "storing a %s threw something that is not a standard exception", KIND[o.kind]);
        if (!x.ok) {
            probe(PR_FAULT_RETRY);
            x = lib([&] { bytes = put(o, fm, capi); });
            if (!x.ok)
                violation("store-failed", "storing a %s as %s failed again after memory was available: %s", KIND[o.kind], FMN[fm], x.err.c_str());
        } else if (hit) { // claimed success although an allocation failed: the bytes still have to be right
            lib([&] { again = put(o, fm, capi); });
            if (again != bytes)
                violation("store-differs", "storing a %s as %s while memory was short gave other bytes and no error", KIND[o.kind], FMN[fm]);
        }
        return bytes;
    };
    auto get_retry = [&](int kind, int fm, const S &bytes, bool capi, double p) {
        Obj o;
        arm_faults(p, 0);
        Res x = lib([&] { o = get(kind, fm, bytes, capi); });
        bool hit = disarm_faults();
        if (!x.standard)
            violation("nonstandard", "loading a %s threw something that is not a standard exception", KIND[kind]);
        if (!x.ok && hit) {
            probe(PR_FAULT_RETRY);
            x = lib([&] { o = get(kind, fm, bytes, capi); });
        }
        if (!x.ok)
            violation("load-failed", "a completely stored %s (%s%s) does not load: %s", KIND[kind], FMN[fm], capi ? ", C interface" : "", x.err.c_str());
        return o;
    };
    auto drop = [&](Obj &o) {
        Lib l;
        o.drop();
    };
    // ------------------------------------------------ storing
    V<int> unsynced;
    for (auto &o : ops) {
        if (dropped(o.id))
            continue;
        int at;
        if (where(o.id, at))
            continue;
        ctx(o.id + 1000 * inc);
        Obj x = s.make(o.kind, o.which);
        S c = canon(x), w = s.want(o.kind, o.which);
        if (w.size() && w != c)
            violation("object", "a %s does not show what it was made from: %s", KIND[o.kind], diff(w, c).c_str());
        disk_sync(disk_write(fmt("canon/%u/%u", o.id, inc), c));
        S bytes = put_retry(x, o.fm, o.capi, pa);
        if (canon(x) != c)
            violation("store-changed", "storing a %s changed it: %s", KIND[o.kind], diff(c, canon(x)).c_str());
        drop(x);
        unsynced.push_back(disk_write(fmt("rec/%u/%u", o.id, inc), bytes));
        yield_point();
        if (o.sync) { // group commit
            for (int k : unsynced)
                disk_sync(k);
            unsynced.clear();
        }
    }
    // ------------------------------------------------ reading
    auto judge = [&](const SOp &o, const Obj &x, const S &c, const char *how) {
        S d = canon(x);
        eval();
        probe(PR_RELOAD);
        if (d != c)
            violation("differs", "a %s stored as %s %s is not the same: %s", KIND[o.kind], FMN[o.fm], how, diff(c, d).c_str());
    };
    auto verifies = [&](const Obj &x, bool &v) {
        return lib([&] {
            auto &h = *s.e.ctx->getManifestHash();
            auto &k = *s.e.ctx->getElGamalPublicKey();
            auto &b = *s.e.ctx->getCryptoExtendedBaseHash();
            v = x.cb ? x.cb->isValidEncryption(h, k, b) : x.sb->isValidEncryption(h, k, b);
        });
    };
    for (auto &o : ops) {
        if (dropped(o.id))
            continue;
        int at;
        if (!where(o.id, at))
            continue;
        ctx(o.id + 500 + 1000 * inc);
        S bytes, c;
        bool torn = false;
        disk_read(fmt("rec/%u/%d", o.id, at), bytes, &torn);
        disk_read(fmt("canon/%u/%d", o.id, at), c);
        auto broken = [&](const S &b, Fault k, bool capi) {
            Obj y;
            Res z = lib([&] { y = get(o.kind, o.fm, b, capi); });
            eval();
            if (!z.ok && !z.standard)
                violation("nonstandard", "loading a damaged %s threw something that is not a standard exception", KIND[o.kind]);
            if (!z.ok) {
                probe(PR_TORN_REFUSED);
                return;
            }
            probe(PR_TORN_LOADED);
            if (k == F_DISK_TORN)
                violation("torn-accepted", "a %s of which only %zu of %zu bytes were stored (%s) loads as if it were complete", KIND[o.kind], b.size(), bytes.size(), FMN[o.fm]);
            // whatever it is now, it can be looked at, stored and verified without a crash
            lib([&] { put(y, FM_JSON, false); });
            if (o.kind == K_CIPHER || o.kind == K_CIPHER_N || o.kind == K_SUBMITTED) {
                Bal bb = y.cb ? ex(*y.cb) : ex(*y.sb);
                S rej = orc::verify(bb, s.e.c, 7, false);
                bool v = false;
                if (rej.size() || q.chance(0.2)) {
                    Res zz = verifies(y, v);
                    if (!zz.standard)
                        violation("nonstandard", "verifying a damaged ballot threw something that is not a standard exception");
                    if (rej.size() && zz.ok && v)
                        violation("damaged-verifies", "a damaged %s (%s) verifies although %s", KIND[o.kind], FMN[o.fm], rej.c_str());
                    probe(PR_TAMPER_INVALID, rej.size() ? 1 : 0);
                }
            } else if (o.kind != K_COMPACT && o.kind != K_COMPACT_PLAIN)
                canon(y);
            Lib l;
            y.drop();
        };
        if (torn) {
            broken(bytes, F_DISK_TORN, o.capi2);
            continue;
        }
        Obj x = get_retry(o.kind, o.fm, bytes, o.capi2, pa);
        judge(o, x, c, inc > (u32)at ? "and reloaded after a restart" : "and reloaded");
        // stores to the same bytes again
        S again = put_retry(x, o.fm, q.chance(0.5) && has_fmt(o.kind, o.fm, true), 0);
        if (again != bytes)
            {
            size_t k = 0;
            while (k < again.size() && k < bytes.size() && again[k] == bytes[k])
                k++;
            k -= std::min<size_t>(k, 60);
            violation("bytes", "a %s reloaded from %s stores to other bytes: ...%s instead of ...%s", KIND[o.kind], FMN[o.fm], o.fm == FM_JSON ? again.substr(k, 200).c_str() : "", o.fm == FM_JSON ? bytes.substr(k, 200).c_str() : "");
        }
        // and through every other format
        int f2 = (int)q.below(FM_N);
        if (has_fmt(o.kind, f2, false)) {
            S b2;
            Res z = lib([&] { b2 = put(x, f2, false); });
            if (!z.ok)
                violation("store-failed", "storing a reloaded %s as %s failed: %s", KIND[o.kind], FMN[f2], z.err.c_str());
            Obj y = get_retry(o.kind, f2, b2, false, 0);
            judge(o, y, c, (S("and, after a reload, as ") + FMN[f2]).c_str());
            drop(y);
        }
        if ((o.kind == K_CIPHER || o.kind == K_CIPHER_N || o.kind == K_SUBMITTED) && q.chance(0.5)) {
            bool v = false;
            Res z = verifies(x, v);
            if (!z.ok || !v)
                violation("invalid", "a %s reloaded from %s no longer verifies: %s", KIND[o.kind], FMN[o.fm], z.err.c_str());
            S rej = orc::verify(x.cb ? ex(*x.cb) : ex(*x.sb), s.e.c, 9);
            if (rej.size())
                violation("invalid", "a %s reloaded from %s: %s", KIND[o.kind], FMN[o.fm], rej.c_str());
            eval();
        }
        if (o.kind == K_IM && q.chance(0.6)) {
            // a station that starts from the stored manifest works like the one that wrote it
            for (auto &st : s.e.m.styles) {
                V<S> have, want;
                Res z = lib([&] {
                    for (auto &k : x.im->getContestsFor(st.id)) {
                        Host hh;
                        have.push_back(k.get().getObjectId());
                    }
                });
                for (auto *k : style_contests(s.e.m, st.id))
                    want.push_back(k->id);
                if (!z.ok || have != want)
                    violation("style", "style %s of a reloaded internal manifest has %zu contests instead of %zu, or in another order", st.id.c_str(), have.size(), want.size());
                eval();
            }
        }
        drop(x);
        if (damaging)
            for (int i = 0; i < 3; i++) {
                ctx(o.id + 500 + 1000 * inc + 100 * (i + 1));
                Fault k = F_DISK_FLIP;
                bool hit;
                S d = damage(bytes, k, hit);
                if (hit)
                    broken(d, k, o.capi2);
            }
    }
    disarm_crash();
    sample(fmt("%d artifacts, %s, incarnation %u, allocation faults %d, damage %d", n, heavy ? "encrypted ballots too" : "no encrypted ballots", inc, pa > 0, damaging));
}
} // namespace scen
