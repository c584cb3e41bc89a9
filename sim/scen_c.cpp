// P03: a forger with full knowledge alters ballots; whatever an independent verifier has to reject, the library has to reject.
#include "place.h"
#include <algorithm>
#include <nlohmann/json.hpp>
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/chaum_pedersen.h>
}
namespace scen {
using nlohmann::json;
using orc::Con;
using orc::Sel;
static Z rq(Rng &r)
{
    Z z = 0;
    for (int i = 0; i < 4; i++)
        z = (z << 64) + Z((unsigned long)r.next());
    return orc::modq(z);
}
static Z mulp(const Z &a, const Z &b) { return a * b % orc::P; }
static Z invp(const Z &a)
{
    Z r;
    mpz_invert(r.get_mpz_t(), a.get_mpz_t(), orc::P.get_mpz_t());
    return r;
}
static json jq(const Z &z) { return orc::hex(z); }
static S bhex(const S &b)
{
    static const char *D = "0123456789ABCDEF";
    S o;
    for (unsigned char c : b) {
        o += D[c >> 4];
        o += D[c & 15];
    }
    return o;
}
static json to_json(const Bal &b)
{
    json cs = json::array();
    for (auto &c : b.cons) {
        json ss = json::array();
        for (auto &s : c.sels)
            ss.push_back({{"object_id", s.id}, {"sequence_order", s.seq}, {"description_hash", jq(s.desc)}, {"ciphertext", {{"pad", jq(s.pad)}, {"data", jq(s.data)}}}, {"is_placeholder_selection", s.placeholder}, {"crypto_hash", jq(s.hash)},
                          {"proof", {{"proof_zero_pad", jq(s.zp)}, {"proof_zero_data", jq(s.zd)}, {"proof_one_pad", jq(s.op)}, {"proof_one_data", jq(s.od)}, {"proof_zero_challenge", jq(s.c0)}, {"proof_one_challenge", jq(s.c1)}, {"challenge", jq(s.c)}, {"proof_zero_response", jq(s.v0)}, {"proof_one_response", jq(s.v1)}}}});
        cs.push_back({{"object_id", c.id}, {"sequence_order", c.seq}, {"description_hash", jq(c.desc)}, {"ballot_selections", ss}, {"ciphertext_accumulation", {{"pad", jq(c.accp)}, {"data", jq(c.accd)}}}, {"crypto_hash", jq(c.hash)},
                      {"proof", {{"pad", jq(c.pp)}, {"data", jq(c.pd)}, {"challenge", jq(c.pc)}, {"response", jq(c.pv)}, {"constant", c.pconst}}}, {"extended_data", {{"pad", jq(c.hpad)}, {"data", bhex(c.hdata)}, {"mac", bhex(c.hmac)}}}});
    }
    return {{"object_id", b.id}, {"style_id", b.style}, {"manifest_hash", jq(b.mhash)}, {"code_seed", jq(b.seed)}, {"contests", cs}, {"code", jq(b.code)}, {"timestamp", b.ts}, {"crypto_hash", jq(b.hash)}};
}
static S enc(const json &j, int fm)
{
    if (fm == FM_JSON)
        return j.dump(-1, ' ', false, json::error_handler_t::replace);
    return str(fm == FM_BSON ? json::to_bson(j) : json::to_msgpack(j));
}
static UP<eg::CiphertextBallotSelection> mk_sel(const Sel &s, bool proof)
{
    UP<eg::DisjunctiveChaumPedersenProof> pr;
    if (proof)
        pr = std::make_unique<eg::DisjunctiveChaumPedersenProof>(mkp(s.zp), mkp(s.zd), mkp(s.op), mkp(s.od), mkq(s.c0), mkq(s.c1), mkq(s.c), mkq(s.v0), mkq(s.v1));
    return std::make_unique<eg::CiphertextBallotSelection>(s.id, s.seq, *mkq(s.desc), std::make_unique<eg::ElGamalCiphertext>(mkp(s.pad), mkp(s.data)), s.placeholder, mkq(0), mkq(s.hash), std::move(pr));
}
static UP<eg::CiphertextBallotContest> mk_con(const Con &c)
{
    V<UP<eg::CiphertextBallotSelection>> v;
    for (auto &s : c.sels)
        v.push_back(mk_sel(s, s.has_proof));
    UP<eg::ConstantChaumPedersenProof> pr;
    if (c.has_proof)
        pr = std::make_unique<eg::ConstantChaumPedersenProof>(mkp(c.pp), mkp(c.pd), mkq(c.pc), mkq(c.pv), c.pconst);
    return std::make_unique<eg::CiphertextBallotContest>(c.id, c.seq, *mkq(c.desc), std::move(v), mkq(0), std::make_unique<eg::ElGamalCiphertext>(mkp(c.accp), mkp(c.accd)), mkq(c.hash), std::move(pr),
                                                          std::make_unique<eg::HashedElGamalCiphertext>(mkp(c.hpad), vec(c.hdata), vec(c.hmac)));
}
static UP<eg::CiphertextBallot> mk_bal(const Bal &b)
{
    V<UP<eg::CiphertextBallotContest>> v;
    for (auto &c : b.cons)
        v.push_back(mk_con(c));
    return std::make_unique<eg::CiphertextBallot>(b.id, b.style, *mkq(b.mhash), mkq(b.seed), std::move(v), mkq(b.code), b.ts, mkq(0), mkq(b.hash));
}
// ---------------------------------------------------------------- forging
struct Forge {
    const orc::Ctx &c;
    Rng r;
    Z hash5(const Sel &s) { return orc::H().z(c.ext).z(s.pad).z(s.data).z(s.zp).z(s.zd).z(s.op).z(s.od).done(); }
    // commitments that satisfy one branch for a challenge and response chosen first
    void sim0(Sel &s, const Z &ch, const Z &v)
    {
        s.c0 = ch;
        s.v0 = v;
        s.zp = mulp(orc::gpow(orc::modq(v)), invp(orc::powm(s.pad, ch)));
        s.zd = mulp(c.kpow(orc::modq(v)), invp(orc::powm(s.data, ch)));
    }
    void sim1(Sel &s, const Z &ch, const Z &v)
    {
        s.c1 = ch;
        s.v1 = v;
        s.op = mulp(orc::gpow(orc::modq(v)), invp(orc::powm(s.pad, ch)));
        s.od = mulp(mulp(orc::gpow(orc::modq(ch)), c.kpow(orc::modq(v))), invp(orc::powm(s.data, ch)));
    }
    void crypt(Sel &s, const Z &v, const Z &n)
    {
        s.nonce = n;
        s.pad = orc::gpow(n);
        s.data = mulp(orc::gpow(v), c.kpow(n));
    }
    // real branch: commitments from u, response for the hash
    void real(Sel &s, int branch, const Z &u, const Z &otherc, const Z &otherv, const Z &ta = 0, const Z &tb = 0)
    {
        Z a = mulp(orc::gpow(u), orc::gpow(ta)), b = mulp(c.kpow(u), orc::gpow(tb));
        if (branch) {
            sim0(s, otherc, otherv);
            s.op = a;
            s.od = b;
            s.c = hash5(s);
            s.c1 = orc::modq(s.c - s.c0);
            s.v1 = orc::modq(u + s.c1 * s.nonce);
        } else {
            sim1(s, otherc, otherv);
            s.zp = a;
            s.zd = b;
            s.c = hash5(s);
            s.c0 = orc::modq(s.c - s.c1);
            s.v0 = orc::modq(u + s.c0 * s.nonce);
        }
    }
    void accumulate(Con &k)
    {
        Z a = 1, b = 1;
        for (auto &s : k.sels) {
            a = mulp(a, s.pad);
            b = mulp(b, s.data);
        }
        k.accp = a;
        k.accd = b;
    }
    Z chash(const Con &k, const Z &A, const Z &B) { return orc::H().z(c.ext).z(A).z(B).z(k.pp).z(k.pd).done(); }
    // count proof for the accumulated ciphertext with aggregate nonce n
    void count(Con &k, const Z &n, const Z &ta = 0, const Z &tb = 0)
    {
        Z u = rq(r);
        k.pp = mulp(orc::gpow(u), orc::gpow(ta));
        k.pd = mulp(c.kpow(u), orc::gpow(tb));
        k.pc = chash(k, k.accp, k.accd);
        k.pv = orc::modq(u + k.pc * n);
    }
    void count_sim(Con &k)
    {
        k.pc = rq(r);
        k.pv = rq(r);
        k.pp = mulp(orc::gpow(k.pv), invp(orc::powm(k.accp, k.pc)));
        k.pd = mulp(mulp(orc::gpow(orc::modq(Z((unsigned long)k.pconst) * k.pc)), c.kpow(k.pv)), invp(orc::powm(k.accd, k.pc)));
    }
    Z agg(const Con &k)
    {
        Z n = 0;
        for (auto &s : k.sels)
            n += s.nonce;
        return orc::modq(n);
    }
    void rehash(Bal &b)
    {
        for (auto &k : b.cons) {
            for (auto &s : k.sels)
                s.hash = orc::sel_hash(s);
            k.hash = orc::con_hash(k);
        }
        b.hash = orc::bal_hash(b);
    }
};
static const char *ATT[] = {
  "vote of 5 proved as one", "vote of 5 proved as zero", "negative vote proved as one", "vote of 1 proved as zero", "vote of 0 proved as one", "range proof with both branches simulated, challenges not adding up", "range proof with both branches simulated, challenge not the hash",
  "commitment a0 altered before the challenge", "commitment a1 altered before the challenge", "commitment b0 altered before the challenge", "commitment b1 altered before the challenge", "pad replaced while the data equation is kept", "ciphertext elements outside the subgroup", "response out of range", "challenge out of range",
  "accumulation altered", "wrong total, count proof with honest commitment", "wrong total, count proof simulated", "count commitment a altered", "count commitment b altered", "wrong total hidden behind a false accumulation", "count limit altered",
  "selection hash altered", "contest hash altered", "ballot hash altered", "manifest hash altered", "description hash altered", "identifier altered", "selections swapped", "contests or selections dropped or repeated", "invalid selection hidden behind a valid one of the same name", "proof missing",
  "one field altered, all hashes recomputed", "one field altered, nothing recomputed", "fields of two ballots mixed"};
static const int NATT = sizeof ATT / sizeof *ATT;
static Z special(Rng &r, bool p)
{
    Z M = p ? orc::P : orc::Q;
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return M - 1;
    case 3: return M;
    case 4: return M + 1;
    case 5: return (Z(1) << (p ? 4096 : 256)) - 1;
    case 6: return p ? orc::G : Z(2);
    }
    return p ? orc::gpow(rq(r)) : rq(r);
}
static Z tweak(Rng &r, const Z &z, bool p)
{
    Z M = p ? orc::P : orc::Q;
    switch (r.below(6)) {
    case 0: return special(r, p);
    case 1: return p ? Z(mulp(z, orc::G)) : orc::modq(z + 1);
    case 2: return (M - z) % M;
    case 3: return z ^ (Z(1) << r.below(p ? 4090 : 254));
    case 4: return z + M < (Z(1) << (p ? 4096 : 256)) ? Z(z + M) : special(r, p);
    }
    return p ? orc::gpow(rq(r)) : rq(r);
}
static void forge(Bal &b, const Bal &other, int att, Forge &f, const MMan &)
{
    Rng &r = f.r;
    size_t ci = r.below(b.cons.size());
    Con &k = b.cons[ci];
    Sel &s = k.sels[r.below(k.sels.size())];
    int64_t vote = orc::decrypt(s.pad, s.data, f.c, 1);
    auto finish = [&](bool recount) {
        f.accumulate(k);
        if (recount)
            f.count(k, f.agg(k));
        f.rehash(b);
    };
    switch (att) {
    case 0: // only g^c1*K^v1 = b1*beta^c1 fails (and the count)
    case 2: {
        Z v = att == 0 ? Z(5) : Z(orc::Q - 1 - r.below(3));
        f.crypt(s, v, rq(r));
        f.real(s, 1, rq(r), rq(r), rq(r));
        // another selection compensates, so that the count is right
        if (k.sels.size() > 1) {
            Sel *t = &k.sels[(&s - &k.sels[0] + 1) % k.sels.size()];
            int64_t tv = orc::decrypt(t->pad, t->data, f.c, 1);
            f.crypt(*t, orc::modq(Z((long)tv) + Z((long)vote) - v), rq(r));
            f.real(*t, 0, rq(r), rq(r), rq(r));
        }
        finish(true);
        break;
    }
    case 1: {
        Z v = 5;
        f.crypt(s, v, rq(r));
        f.real(s, 0, rq(r), rq(r), rq(r));
        finish(true);
        break;
    }
    case 3:
        f.crypt(s, 1, rq(r));
        f.real(s, 0, rq(r), rq(r), rq(r));
        finish(true);
        break;
    case 4:
        f.crypt(s, 0, rq(r));
        f.real(s, 1, rq(r), rq(r), rq(r));
        finish(true);
        break;
    case 5:
    case 6: {
        f.crypt(s, r.chance(0.5) ? Z((long)vote) : Z(7), rq(r));
        f.sim0(s, rq(r), rq(r));
        f.sim1(s, rq(r), rq(r));
        s.c = att == 5 ? f.hash5(s) : orc::modq(s.c0 + s.c1);
        finish(true);
        break;
    }
    case 7:
    case 8:
    case 9:
    case 10: {
        int br = att == 8 || att == 10;
        bool same_vote = r.chance(0.5);
        f.crypt(s, same_vote ? Z((long)vote) : Z(br), rq(r));
        Z t = 1 + rq(r) % 1000;
        f.real(s, br, rq(r), rq(r), rq(r), att <= 8 ? t : Z(0), att > 8 ? t : Z(0));
        finish(true);
        break;
    }
    case 11: { // data = g*K^n or K^n but pad = g^m
        Z n = rq(r), m = rq(r);
        int br = (int)r.below(2);
        f.crypt(s, br, n);
        s.pad = orc::gpow(m);
        f.real(s, br, rq(r), rq(r), rq(r));
        finish(true);
        break;
    }
    case 12: { // negated elements with even challenges satisfy every equation
        V<Sel *> two{&s};
        if (k.sels.size() > 1)
            two.push_back(&k.sels[(&s - &k.sels[0] + 1) % k.sels.size()]);
        bool na = r.chance(0.6), nb = !na || r.chance(0.5);
        for (Sel *t : two) {
            int64_t tv = orc::decrypt(t->pad, t->data, f.c, 1);
            for (int i = 0; i < 40; i++) {
                f.crypt(*t, Z((long)tv), rq(r));
                if (na)
                    t->pad = orc::P - t->pad;
                if (nb)
                    t->data = orc::P - t->data;
                Z oc = rq(r);
                if (mpz_odd_p(oc.get_mpz_t()))
                    oc -= 1;
                f.real(*t, (int)tv, rq(r), oc, rq(r));
                if (mpz_even_p(t->c0.get_mpz_t()) && mpz_even_p(t->c1.get_mpz_t()))
                    break;
            }
        }
        f.accumulate(k);
        for (int i = 0; i < 20; i++) {
            f.count(k, f.agg(k));
            if (two.size() == 2 || mpz_even_p(k.pc.get_mpz_t()))
                break;
        }
        f.rehash(b);
        break;
    }
    case 13: { // the simulated branch may choose its response freely: a small one has a second representation
        f.crypt(s, Z((long)vote), rq(r));
        Z v = Z((unsigned long)r.below(180));
        f.real(s, (int)vote, rq(r), rq(r), v);
        (vote ? s.v0 : s.v1) = v + orc::Q;
        finish(true);
        break;
    }
    case 14: {
        f.crypt(s, Z((long)vote), rq(r));
        Z ch = Z((unsigned long)r.below(180));
        f.real(s, (int)vote, rq(r), ch, rq(r));
        (vote ? s.c0 : s.c1) = ch + orc::Q;
        finish(true);
        break;
    }
    case 15:
        (r.chance(0.5) ? k.accp : k.accd) = r.chance(0.5) ? mulp(k.accp, orc::G) : orc::gpow(rq(r));
        break;
    case 16:
    case 17:
    case 20: { // one more or one less vote in the contest, every range proof valid
        Con before = k;
        Z nn = rq(r);
        f.crypt(s, vote ? 0 : 1, nn);
        f.real(s, vote ? 0 : 1, rq(r), rq(r), rq(r));
        f.accumulate(k);
        if (att == 16)
            f.count(k, f.agg(k));
        else if (att == 17)
            f.count_sim(k);
        else {
            Sel t;
            f.crypt(t, Z((unsigned long)k.pconst), rq(r));
            Z A = k.accp, B = k.accd;
            k.accp = t.pad;
            k.accd = t.data;
            f.count(k, t.nonce);
            (void)A;
            (void)B;
        }
        f.rehash(b);
        break;
    }
    case 18: f.count(k, f.agg(k), 1 + rq(r) % 1000, 0); break;
    case 19: f.count(k, f.agg(k), 0, 1 + rq(r) % 1000); break;
    case 21: k.pconst = r.chance(0.5) ? k.pconst + 1 + r.below(3) : r.chance(0.5) ? 0 : r.next(); break;
    case 22:
        s.hash = r.chance(0.3) ? other.cons[0].sels[0].hash : tweak(r, s.hash, false);
        k.hash = orc::con_hash(k);
        b.hash = orc::bal_hash(b);
        break;
    case 23:
        k.hash = r.chance(0.3) ? other.cons[0].hash : tweak(r, k.hash, false);
        b.hash = orc::bal_hash(b);
        break;
    case 24: b.hash = r.chance(0.3) ? other.hash : tweak(r, b.hash, false); break;
    case 25:
        b.mhash = tweak(r, b.mhash, false);
        if (r.chance(0.7))
            b.hash = orc::bal_hash(b);
        break;
    case 26:
        if (r.chance(0.5)) {
            s.desc = tweak(r, s.desc, false);
            if (r.chance(0.4))
                k.hash = orc::con_hash(k);
        } else {
            k.desc = tweak(r, k.desc, false);
            if (r.chance(0.4))
                b.hash = orc::bal_hash(b);
        }
        break;
    case 27: {
        S n = r.chance(0.5) ? S("x") : b.id;
        switch (r.below(3)) {
        case 0: s.id = s.id == n ? n + "y" : n; break;
        case 1: k.id = k.id == n ? n + "y" : n; break;
        case 2: b.id += "x"; break;
        }
        break;
    }
    case 28: {
        Sel &t = k.sels[r.below(k.sels.size())];
        if (r.chance(0.5))
            std::swap(s, t);
        else {
            std::swap(s.pad, t.pad);
            std::swap(s.data, t.data);
            if (r.chance(0.5)) {
                Sel x = s;
                s = t;
                t = x;
                std::swap(s.id, t.id);
                std::swap(s.desc, t.desc);
            }
        }
        if (r.chance(0.5))
            s.hash = orc::sel_hash(s), t.hash = orc::sel_hash(t);
        break;
    }
    case 29: {
        bool re = r.chance(0.5);
        switch (r.below(4)) {
        case 0: k.sels.erase(k.sels.begin() + (&s - &k.sels[0])); break;
        case 1: {
            Sel t = s;
            k.sels.push_back(t);
            break;
        }
        case 2: b.cons.erase(b.cons.begin() + ci); break;
        case 3: {
            Con t = k;
            b.cons.push_back(t);
            re = false;
            break;
        }
        }
        if (re)
            for (auto &x : b.cons)
                f.accumulate(x);
        if (r.chance(0.7) && re)
            f.rehash(b);
        break;
    }
    case 30: { // first copy broken, second of the same name intact (and the other way round)
        if (r.chance(0.5)) {
            Con bad = k;
            bad.pc = tweak(r, bad.pc, false);
            b.cons.insert(b.cons.begin() + (r.chance(0.5) ? ci : ci + 1), bad);
        } else {
            Sel bad = s;
            bad.v0 = tweak(r, bad.v0, false);
            k.sels.insert(k.sels.begin() + (&s - &k.sels[0]) + r.below(2), bad);
            f.accumulate(k);
            k.pconst += (u64)vote;
            f.count(k, f.agg(k));
        }
        f.rehash(b);
        break;
    }
    case 31:
        if (r.chance(0.5))
            s.has_proof = false;
        else
            k.has_proof = false;
        break;
    case 32:
    case 33: {
        Z *PP[] = {&s.pad, &s.data, &s.zp, &s.zd, &s.op, &s.od, &k.accp, &k.accd, &k.pp, &k.pd};
        Z *QQ[] = {&s.c0, &s.c1, &s.c, &s.v0, &s.v1, &k.pc, &k.pv, &s.desc, &k.desc, &b.mhash};
        if (r.chance(0.6)) {
            Z *z = PP[r.below(10)];
            *z = tweak(r, *z, true);
        } else {
            Z *z = QQ[r.below(att == 32 ? 7 : 10)];
            *z = tweak(r, *z, false);
        }
        if (att == 32) {
            if (r.chance(0.5))
                f.accumulate(k);
            f.rehash(b);
        }
        break;
    }
    case 34: {
        const Con &ok = other.cons[r.below(other.cons.size())];
        const Sel &os = ok.sels[r.below(ok.sels.size())];
        switch (r.below(5)) {
        case 0: {
            S i = s.id;
            Z d = s.desc;
            s = os;
            s.id = i;
            s.desc = d;
            break;
        }
        case 1: s.zp = os.zp, s.zd = os.zd, s.op = os.op, s.od = os.od, s.c0 = os.c0, s.c1 = os.c1, s.c = os.c, s.v0 = os.v0, s.v1 = os.v1; break;
        case 2: k.pp = ok.pp, k.pd = ok.pd, k.pc = ok.pc, k.pv = ok.pv; break;
        case 3: s.pad = os.pad, s.data = os.data; break;
        case 4: k.accp = ok.accp, k.accd = ok.accd; break;
        }
        if (r.chance(0.6)) {
            if (r.chance(0.7))
                f.accumulate(k);
            f.rehash(b);
        }
        break;
    }
    }
}
// raw damage to the stored text: types, missing and repeated entries, odd strings
static void leaves(json &j, V<json *> &out)
{
    if (j.is_structured())
        for (auto &x : j)
            leaves(x, out);
    out.push_back(&j);
}
static void raw_damage(json &j, Rng &r)
{
    V<json *> l;
    leaves(j, l);
    json &x = *l[r.below(l.size())];
    switch (r.below(12)) {
    case 0: x = nullptr; break;
    case 1: x = ""; break;
    case 2: x = r.next(); break;
    case 3: x = -1; break;
    case 4: x = json::array(); break;
    case 5: x = json::object(); break;
    case 6:
        if (x.is_string()) {
            S s = x;
            if (s.size())
                s[r.below(s.size())] = "0123456789ABCDEFabcdefxyzG -\n"[r.below(29)];
            x = s;
        }
        break;
    case 7:
        if (x.is_string()) {
            S s = x;
            x = r.chance(0.3) ? s + s : r.chance(0.5) ? s.substr(0, r.below(s.size() + 1)) : "00" + s;
        }
        break;
    case 8: x = *l[r.below(l.size())]; break;
    case 9:
        if (x.is_object() && x.size())
            x.erase(std::next(x.begin(), (long)r.below(x.size())));
        else if (x.is_array() && x.size())
            x.erase(r.below(x.size()));
        break;
    case 10:
        if (x.is_array() && x.size())
            x.push_back(json(x[r.below(x.size())]));
        break;
    case 11: x = S(1 + r.below(2000), "0F"[r.below(2)]); break;
    }
}
void p03(u32 inc)
{
    PlaceOpt o;
    Rng g = gen(3);
    o.max_threads = 1;
    o.max_ballots = 2;
    o.g.max_con = 2;
    o.g.max_sel = 2;
    o.g.max_elected = 2;
    o.g.max_style = 1;
    o.apis = 1u << A_MED_NV | 1u << A_FREE | 1u << A_C_MED;
    o.p_verify = 0;
    o.b.p_skip_con = 0.05;
    Place p;
    begin(p, g, o, inc);
    p.run_stations();
    if (p.out.empty()) {
        describe(p);
        return;
    }
    Rng q = gen(103);
    int nm = (int)q.range(4, 10), nt = q.chance(0.3) ? 2 : 1;
    u32 base = p.nops;
    p.nops += (u32)nm;
    sh->ops = p.nops;
    auto accepts = [&](eg::CiphertextBallot &b, const orc::Ctx &c, bool capi, bool &ok) {
        auto mh = mkq(c.mhash), eh = mkq(c.ext);
        auto K = mkp(c.K);
        ok = false;
        return lib([&] {
            if (capi)
                ok = eg_ciphertext_ballot_is_valid_encryption((eg_ciphertext_ballot_t *)&b, (eg_element_mod_q_t *)mh.get(), (eg_element_mod_p_t *)K.get(), (eg_element_mod_q_t *)eh.get());
            else
                ok = b.isValidEncryption(*mh, *K, *eh);
        });
    };
    // the unaltered ballot is accepted
    {
        auto &em = p.out[0];
        bool ok;
        Res x = accepts(*em.obj, p.e.c, q.chance(0.5), ok);
        eval();
        if (!x.ok || !ok)
            violation("unaltered-rejected", "an unaltered ballot does not verify %s", x.err.c_str());
    }
    auto one = [&](int i) {
        u64 arg;
        ctx(base + (u32)i);
        if (dropped(base + (u32)i) || !plan(F_TAMPER, 1, 1ull << 40, &arg))
            return;
        Rng r(arg);
        const Emitted &em = p.out[r.below(p.out.size())];
        const Bal &other = p.out[r.below(p.out.size())].b;
        Bal b = em.b;
        orc::Ctx c = p.e.c;
        int kind = (int)r.below(20);
        S what;
        UP<eg::CiphertextBallot> obj;
        int fm = (int)r.below(FM_N);
        bool capi = r.chance(0.4), submitted = r.chance(0.3), fault = r.chance(0.15);
        Res ld;
        fired(F_TAMPER);
        if (kind < 15) {
            int att = (int)r.below(NATT);
            Forge f{c, Rng(r.next())};
            forge(b, other, att, f, p.e.m);
            what = ATT[att];
            bool file = r.chance(0.35) && att != 31;
            S bytes;
            try {
                bytes = file ? enc(to_json(b), fm) : S();
            } catch (const std::exception &) {
                return; // a number that format cannot express
            }
            ld = lib([&] {
                obj = file ? load_ballot(bytes, fm) : mk_bal(b);
                if (submitted && att != 31) // copying a ballot without proofs is not supported
                    obj = eg::SubmittedBallot::from(*obj, eg::BallotBoxState::cast);
            });
        } else if (kind < 18) {
            json j = to_json(b);
            if (submitted)
                j["state"] = 1;
            for (int n = (int)r.range(1, 2); n--;)
                raw_damage(j, r);
            if (!j.is_object())
                j = json::object();
            what = "stored text damaged";
            S bytes;
            try {
                bytes = enc(j, fm);
            } catch (const std::exception &) {
                return; // not expressible in that format
            }
            ld = lib([&] {
                if (submitted)
                    obj = load_submitted(bytes, fm);
                else
                    obj = load_ballot(bytes, fm);
            });
        } else { // the intact ballot against another election
            what = "verified for another election";
            switch (r.below(4)) {
            case 0: c.ext = tweak(r, c.ext, false); break;
            case 1: c.mhash = tweak(r, c.mhash, false); break;
            case 2:
                c.K = key((p.e.ki + 1) % NKEY).K;
                c.fbK = &key((p.e.ki + 1) % NKEY).fb;
                break;
            case 3:
                c.K = mulp(c.K, orc::G);
                c.fbK = nullptr;
                break;
            }
            ld = lib([&] { obj = mk_bal(b); });
        }
        if (!ld.ok) {
            if (!ld.standard)
                violation("nonstandard", "loading an altered ballot threw a non-standard exception");
            probe(PR_TAMPER_REFUSED);
            eval();
            return;
        }
        Bal seen = ex(*obj);
        S why = orc::verify(seen, c, 1, false);
        if (why.empty()) {
            eval();
            return; // not an alteration the proofs and hashes can show
        }
        bool ok = false;
        if (fault)
            arm_faults(1, 0);
        Res x = accepts(*obj, c, capi, ok);
        if (fault)
            disarm_faults();
        eval();
        if (!x.standard)
            violation("nonstandard", "verifying an altered ballot threw a non-standard exception");
        if (x.ok && ok)
            violation("forgery-accepted", "the library accepts an altered ballot (%s): an independent verifier rejects it: %s", what.c_str(), why.c_str());
        probe(PR_TAMPER_INVALID);
        // the parts one by one: what the reference rejects alone, the library has to reject alone
        for (auto &cc : obj->getContests()) {
            Con oc = ex(cc.get());
            if (!r.chance(0.5))
                continue;
            for (auto &ss : cc.get().getSelections()) {
                Sel os = ex(ss.get());
                if (!os.has_proof || !r.chance(0.4))
                    continue;
                Bal one;
                one.mhash = c.mhash;
                Con oo;
                oo.sels.push_back(os);
                one.cons.push_back(oo);
                S w = orc::verify(one, c, 1, false);
                bool range_bad = w.find("(selection") != S::npos;
                bool wrongseed = r.chance(0.3);
                Z seed = wrongseed ? tweak(r, os.desc, false) : os.desc;
                if (!range_bad && seed == os.desc)
                    continue;
                bool v = false, pv = false, cm = r.chance(0.5);
                auto sd = mkq(seed), eh = mkq(c.ext);
                auto K = mkp(c.K);
                bool hash_only = w.find("crypto hash") != S::npos;
                Res y = lib([&] {
                    v = cm ? eg_ciphertext_ballot_selection_is_valid_encryption((eg_ciphertext_ballot_selection_t *)&ss.get(), (eg_element_mod_q_t *)sd.get(), (eg_element_mod_p_t *)K.get(), (eg_element_mod_q_t *)eh.get()) : ss.get().isValidEncryption(*sd, *K, *eh);
                    if (range_bad && !hash_only)
                        pv = cm ? eg_disjunctive_chaum_pedersen_proof_is_valid((eg_disjunctive_chaum_pedersen_proof_t *)ss.get().getProof(), (eg_elgamal_ciphertext_t *)ss.get().getCiphertext(), (eg_element_mod_p_t *)K.get(), (eg_element_mod_q_t *)eh.get()) : ss.get().getProof()->isValid(*ss.get().getCiphertext(), *K, *eh);
                });
                eval();
                if (y.ok && v)
                    violation("forgery-accepted", "the library accepts an altered selection (%s): %s", what.c_str(), range_bad ? w.c_str() : "it was verified for another description hash");
                if (y.ok && pv)
                    violation("forgery-accepted", "the library accepts an invalid range proof (%s): %s", what.c_str(), w.c_str());
            }
            if (oc.sels.empty() || !oc.has_proof)
                continue;
            // the contest for itself: accumulation, hash and count proof
            Z ap = 1, ad = 1;
            bool nonces_ok = true;
            for (auto &s : oc.sels) {
                ap = mulp(ap, s.pad);
                ad = mulp(ad, s.data);
            }
            S cw;
            if (oc.accp != ap || oc.accd != ad)
                cw = "accumulation is not the product of the selections";
            else if (oc.hash != orc::con_hash(oc))
                cw = "contest crypto hash wrong";
            else if (oc.pc != orc::H().z(c.ext).z(ap).z(ad).z(oc.pp).z(oc.pd).done())
                cw = "count proof challenge is not the specified hash";
            else if (oc.pv < orc::Q && oc.pc < orc::Q && oc.pp < orc::P && oc.pd < orc::P) {
                if (orc::gpow(oc.pv) != mulp(oc.pp, orc::powm(ap, oc.pc)))
                    cw = "count proof equation g^v = a*A^c fails";
                else if (mulp(orc::gpow(orc::modq(Z((unsigned long)oc.pconst) * oc.pc)), c.kpow(oc.pv)) != mulp(oc.pd, orc::powm(ad, oc.pc)))
                    cw = "count proof equation g^(L*c)*K^v = b*B^c fails";
            }
            bool wrongseed = cw.empty() && r.chance(0.3);
            Z seed = wrongseed ? tweak(r, oc.desc, false) : oc.desc;
            if (cw.empty() && seed != oc.desc)
                cw = "it was verified for another description hash";
            (void)nonces_ok;
            if (cw.empty())
                continue;
            bool v = false, cm = r.chance(0.5);
            auto sd = mkq(seed), eh = mkq(c.ext);
            auto K = mkp(c.K);
            Res y = lib([&] { v = cm ? eg_ciphertext_ballot_contest_is_valid_encryption((eg_ciphertext_ballot_contest_t *)&cc.get(), (eg_element_mod_q_t *)sd.get(), (eg_element_mod_p_t *)K.get(), (eg_element_mod_q_t *)eh.get()) : cc.get().isValidEncryption(*sd, *K, *eh); });
            eval();
            if (y.ok && v)
                violation("forgery-accepted", "the library accepts an altered contest (%s): %s", what.c_str(), cw.c_str());
        }
        event(r.s);
        Lib l;
        obj.reset();
    };
    if (nt == 1)
        for (int i = 0; i < nm; i++)
            one(i);
    else {
        V<int> tids;
        for (int t = 0; t < nt; t++)
            tids.push_back(spawn([&, t] {
                for (int i = t; i < nm; i += nt)
                    one(i);
                ctx(CTX_NONE);
            }));
        for (int t : tids)
            join(t);
    }
    ctx(CTX_NONE);
    describe(p);
}
} // namespace scen
