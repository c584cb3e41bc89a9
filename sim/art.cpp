#include "art.h"
#include <algorithm>
#include <cstring>
#include <electionguard/ballot.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/election.h>
#include <electionguard/encrypt.h>
#include <electionguard/manifest.h>
namespace scen {
const char *KIND[K_N] = {"manifest", "internal manifest", "context", "device", "plaintext ballot", "encrypted ballot", "encrypted ballot with nonces", "submitted ballot", "compact encrypted ballot", "compact plaintext ballot"};
const char *FMN[FM_N] = {"JSON", "BSON", "MessagePack"};
void Obj::drop()
{
    man.reset(), im.reset(), ctx.reset(), dev.reset(), pt.reset(), cb.reset(), sb.reset(), cc.reset(), cp.reset();
}
bool has_fmt(int k, int fm, bool capi)
{
    if (k == K_CTX)
        return fm != FM_MSGPACK;
    if (k == K_DEV)
        return fm == FM_JSON || (fm == FM_BSON && !capi);
    if (k == K_COMPACT || k == K_COMPACT_PLAIN)
        return !capi || fm == FM_MSGPACK;
    return true;
}
static S take(const char *f, int st, char *p, u64 n)
{
    if (st)
        throw StatusError(f, st);
    if (!p)
        throw StatusError(f, -1);
    bool bad = !n || p[n - 1] || memchr(p, 0, n) != p + n - 1;
    S s;
    if (!bad) {
        Host h;
        s.assign(p, n - 1);
    }
    eg_free_int_ptr(p);
    if (bad)
        violation("c-text", "%s returned a text whose stated size is not its own", f);
    return s;
}
static S take(const char *f, int st, u8 *p, u64 n)
{
    if (st)
        throw StatusError(f, st);
    S s;
    {
        Host h;
        s.assign((char *)p, n);
    }
    eg_delete_int_ptr(p);
    return s;
}
#define J(F, T, P) \
    { \
        char *d = nullptr; \
        u64 n = 0; \
        int st = guarded(#F, [&] { return F((T *)(P), &d, &n); }); \
        return take(#F, st, d, n); \
    }
#define B(F, T, P) \
    { \
        u8 *d = nullptr; \
        u64 n = 0; \
        int st = guarded(#F, [&] { return F((T *)(P), &d, &n); }); \
        return take(#F, st, d, n); \
    }
#define J3(F, T, P) \
    if (fm == FM_JSON) \
        J(F##_to_json, T, P) \
    if (fm == FM_BSON) \
        B(F##_to_bson, T, P) \
    B(F##_to_msgpack, T, P)
S put(const Obj &o, int fm, bool capi)
{
    if (capi)
        switch (o.kind) {
        case K_MAN: J3(eg_election_manifest, eg_election_manifest_t, o.man.get());
        case K_IM: J3(eg_internal_manifest, eg_internal_manifest_t, o.im.get());
        case K_CTX:
            if (fm == FM_JSON)
                J(eg_ciphertext_election_context_to_json, eg_ciphertext_election_context_t, o.ctx.get());
            B(eg_ciphertext_election_context_to_bson, eg_ciphertext_election_context_t, o.ctx.get());
        case K_DEV: J(eg_encryption_device_to_json, eg_encryption_device_t, o.dev.get());
        case K_PLAIN: J3(eg_plaintext_ballot, eg_plaintext_ballot_t, o.pt.get());
        case K_CIPHER: J3(eg_ciphertext_ballot, eg_ciphertext_ballot_t, o.cb.get());
        case K_CIPHER_N:
            if (fm == FM_JSON)
                J(eg_ciphertext_ballot_to_json_with_nonces, eg_ciphertext_ballot_t, o.cb.get());
            if (fm == FM_BSON)
                B(eg_ciphertext_ballot_to_bson_with_nonces, eg_ciphertext_ballot_t, o.cb.get());
            B(eg_ciphertext_ballot_to_msgpack_with_nonces, eg_ciphertext_ballot_t, o.cb.get());
        case K_SUBMITTED: J3(eg_submitted_ballot, eg_submitted_ballot_t, o.sb.get());
        case K_COMPACT: B(eg_compact_ciphertext_ballot_to_msgpack, eg_compact_ciphertext_ballot_t, o.cc.get());
        case K_COMPACT_PLAIN: B(eg_compact_plaintext_ballot_to_msgpack, eg_compact_plaintext_ballot_t, o.cp.get());
        }
#define CPP(x, ...) return fm == FM_JSON ? (x)->toJson(__VA_ARGS__) : str(fm == FM_BSON ? (x)->toBson(__VA_ARGS__) : (x)->toMsgPack(__VA_ARGS__))
    switch (o.kind) {
    case K_MAN: CPP(o.man);
    case K_IM: CPP(o.im);
    case K_CTX: return fm == FM_JSON ? o.ctx->toJson() : str(o.ctx->toBson());
    case K_DEV: return fm == FM_JSON ? o.dev->toJson() : str(o.dev->toBson());
    case K_PLAIN: CPP(o.pt);
    case K_CIPHER: CPP(o.cb, false);
    case K_CIPHER_N: CPP(o.cb, true);
    case K_SUBMITTED: CPP(o.sb);
    case K_COMPACT: CPP(o.cc);
    case K_COMPACT_PLAIN: CPP(o.cp);
    }
    return "";
}
#define RJ(F, T, CT, M) \
    { \
        T *h = nullptr; \
        int st = guarded(#F, [&] { return F(tx.data(), &h); }); \
        if (st) { \
            if (h) \
                violation("handle", #F " failed but gave a handle"); \
            throw StatusError(#F, st); \
        } \
        o.M.reset((CT *)h); \
        return o; \
    }
#define RB(F, T, CT, M) \
    { \
        T *h = nullptr; \
        int st = guarded(#F, [&] { return F((u8 *)tx.data(), bytes.size(), &h); }); \
        if (st) { \
            if (h) \
                violation("handle", #F " failed but gave a handle"); \
            throw StatusError(#F, st); \
        } \
        o.M.reset((CT *)h); \
        return o; \
    }
#define R3(F, T, CT, M) \
    if (fm == FM_JSON) \
        RJ(F##_from_json, T, CT, M) \
    if (fm == FM_BSON) \
        RB(F##_from_bson, T, CT, M) \
    RB(F##_from_msgpack, T, CT, M)
Obj get(int kind, int fm, const S &bytes, bool capi)
{
    Obj o;
    o.kind = kind;
    S tx;
    {
        Host h;
        tx = bytes;
        tx.push_back(0);
    }
    if (capi)
        switch (kind) {
        case K_MAN: R3(eg_election_manifest, eg_election_manifest_t, eg::Manifest, man);
        case K_IM: R3(eg_internal_manifest, eg_internal_manifest_t, eg::InternalManifest, im);
        case K_CTX:
            if (fm == FM_JSON)
                RJ(eg_ciphertext_election_context_from_json, eg_ciphertext_election_context_t, eg::CiphertextElectionContext, ctx);
            RB(eg_ciphertext_election_context_from_bson, eg_ciphertext_election_context_t, eg::CiphertextElectionContext, ctx);
        case K_DEV: RJ(eg_encryption_device_from_json, eg_encryption_device_t, eg::EncryptionDevice, dev);
        case K_PLAIN: R3(eg_plaintext_ballot, eg_plaintext_ballot_t, eg::PlaintextBallot, pt);
        case K_CIPHER:
        case K_CIPHER_N: R3(eg_ciphertext_ballot, eg_ciphertext_ballot_t, eg::CiphertextBallot, cb);
        case K_SUBMITTED: R3(eg_submitted_ballot, eg_submitted_ballot_t, eg::SubmittedBallot, sb);
        case K_COMPACT: RB(eg_compact_ciphertext_ballot_from_msgpack, eg_compact_ciphertext_ballot_t, eg::CompactCiphertextBallot, cc);
        case K_COMPACT_PLAIN: RB(eg_compact_plaintext_ballot_from_msgpack, eg_compact_plaintext_ballot_t, eg::CompactPlaintextBallot, cp);
        }
#define RC(CT, M) o.M = fm == FM_JSON ? eg::CT::fromJson(bytes) : fm == FM_BSON ? eg::CT::fromBson(vec(bytes)) : eg::CT::fromMsgPack(vec(bytes)); return o
    switch (kind) {
    case K_MAN: RC(Manifest, man);
    case K_IM: RC(InternalManifest, im);
    case K_CTX: o.ctx = fm == FM_JSON ? eg::CiphertextElectionContext::fromJson(bytes) : eg::CiphertextElectionContext::fromBson(vec(bytes)); return o;
    case K_DEV: o.dev = fm == FM_JSON ? eg::EncryptionDevice::fromJson(bytes) : eg::EncryptionDevice::fromBson(vec(bytes)); return o;
    case K_PLAIN: RC(PlaintextBallot, pt);
    case K_CIPHER:
    case K_CIPHER_N: RC(CiphertextBallot, cb);
    case K_SUBMITTED: RC(SubmittedBallot, sb);
    case K_COMPACT: RC(CompactCiphertextBallot, cc);
    case K_COMPACT_PLAIN: RC(CompactPlaintextBallot, cp);
    }
    return o;
}
// ---------------------------------------------------------------- canonical texts
S canon(const MMan &m)
{
    S s;
    for (auto &l : describe_man(m))
        s += l + "\n";
    for (auto &x : m.geos)
        s += "h geo " + orc::hex(h_geo(x)) + "\n";
    for (auto &x : m.parties)
        s += "h party " + orc::hex(h_party(x)) + "\n";
    for (auto &x : m.cands)
        s += "h cand " + orc::hex(h_cand(x)) + "\n";
    for (auto &x : m.styles)
        s += "h style " + orc::hex(h_style(x)) + "\n";
    return s + "hash " + orc::hex(h_man(m)) + "\n";
}
S canon_im(const MMan &m)
{
    S s = "manifest " + orc::hex(h_man(m)) + "\n";
    for (auto &l : describe_man(m))
        if (!l.compare(0, 4, "geo ") || !l.compare(0, 9, "candidate") || !l.compare(0, 6, "style ") || !l.compare(0, 7, "contest"))
            s += l + "\n";
    auto cons = m.cons;
    std::stable_sort(cons.begin(), cons.end(), [](const MCon &a, const MCon &b) { return a.seq < b.seq; });
    for (auto &c : cons) {
        auto ph = placeholders(c);
        s += "contest " + c.id + " " + orc::hex(h_con(c));
        for (auto &x : ph)
            s += " placeholder " + json_str(x.id) + json_str(x.cand) + std::to_string(x.seq) + orc::hex(h_sel(x));
        s += "\n";
    }
    return s;
}
S canon(const orc::Ctx &c, bool over, u64 maxb, V<std::pair<S, S>> ext)
{
    std::sort(ext.begin(), ext.end());
    S s = fmt("n %lu k %lu over %d max %lu\n", c.n, c.k, over, maxb) + "key " + orc::hex(c.K) + "\ncommitment " + orc::hex(c.commit) + "\nmanifest " + orc::hex(c.mhash) + "\nbase " + orc::hex(c.base) + "\nextended base " + orc::hex(c.ext) + "\n";
    for (auto &e : ext)
        s += "ext " + json_str(e.first) + "=" + json_str(e.second) + "\n";
    return s;
}
S canon(const VBal &v)
{
    S s = json_str(v.id) + json_str(v.style) + "\n";
    for (auto &c : v.cons) {
        s += "c " + json_str(c.id) + "\n";
        for (auto &x : c.sels)
            s += "s " + json_str(x.id) + std::to_string(x.vote) + json_str(x.writein) + "\n";
    }
    return s;
}
S canon(const Bal &b, bool nonces)
{
    using orc::hex;
    S s = json_str(b.id) + json_str(b.style) + fmt(" ts %lu state %d", b.ts, b.state) + "\nmanifest " + hex(b.mhash) + "\nseed " + hex(b.seed) + "\ncode " + hex(b.code) + "\nhash " + hex(b.hash) + "\n";
    if (nonces)
        s += "nonce " + hex(b.nonce) + "\n";
    for (auto &c : b.cons) {
        s += "contest " + json_str(c.id) + fmt(" %lu %d%d%d", c.seq, c.has_proof, c.has_acc, c.has_ext) + "\n";
        s += "desc " + hex(c.desc) + "\nacc " + hex(c.accp) + " " + hex(c.accd) + "\nhash " + hex(c.hash) + "\nproof " + hex(c.pp) + " " + hex(c.pd) + " " + hex(c.pc) + " " + hex(c.pv) + fmt(" %lu", c.pconst) + "\next " + hex(c.hpad) + " " + hex(orc::from_bytes("\1" + c.hdata)) + " " + hex(orc::from_bytes("\1" + c.hmac)) + "\n";
        if (nonces)
            s += "nonce " + hex(c.nonce) + "\n";
        for (auto &x : c.sels) {
            s += "selection " + json_str(x.id) + fmt(" %lu %d%d", x.seq, x.placeholder, x.has_proof) + "\ndesc " + hex(x.desc) + "\nct " + hex(x.pad) + " " + hex(x.data) + "\nhash " + hex(x.hash) + "\n";
            s += "proof " + hex(x.zp) + " " + hex(x.zd) + " " + hex(x.op) + " " + hex(x.od) + " " + hex(x.c0) + " " + hex(x.c1) + " " + hex(x.c) + " " + hex(x.v0) + " " + hex(x.v1) + "\n";
            if (nonces)
                s += "nonce " + hex(x.nonce) + "\n";
        }
    }
    return s;
}
static S canon(const eg::CompactPlaintextBallot &p)
{
    S s = json_str(p.getObjectId()) + json_str(p.getStyleId()) + "\nvotes";
    for (u64 v : p.getSelections())
        s += fmt(" %lu", v);
    s += "\n";
    for (auto &x : p.getWriteIns())
        s += "writein " + json_str(x) + "\n";
    return s;
}
S canon(const Obj &o)
{
    switch (o.kind) {
    case K_MAN: {
        MMan m = ex(*o.man);
        S s;
        for (auto &l : describe_man(m))
            s += l + "\n";
        for (auto &x : o.man->getGeopoliticalUnits())
            s += "h geo " + orc::hex(zq(*x.get().crypto_hash())) + "\n";
        for (auto &x : o.man->getParties())
            s += "h party " + orc::hex(zq(*x.get().crypto_hash())) + "\n";
        for (auto &x : o.man->getCandidates())
            s += "h cand " + orc::hex(zq(*x.get().crypto_hash())) + "\n";
        for (auto &x : o.man->getBallotStyles())
            s += "h style " + orc::hex(zq(*x.get().crypto_hash())) + "\n";
        return s + "hash " + orc::hex(zq(*o.man->crypto_hash())) + "\n";
    }
    case K_IM: {
        S s = "manifest " + orc::hex(zq(*o.im->getManifestHash())) + "\n";
        for (auto &l : describe_im(*o.im))
            s += l + "\n";
        for (auto &r : o.im->getContests()) {
            auto &c = r.get();
            s += "contest " + c.getObjectId() + " " + orc::hex(zq(*static_cast<eg::ContestDescription &>(c).crypto_hash()));
            for (auto &x : c.getPlaceholders())
                s += " placeholder " + json_str(x.get().getObjectId()) + json_str(x.get().getCandidateId()) + std::to_string(x.get().getSequenceOrder()) + orc::hex(zq(*x.get().crypto_hash()));
            s += "\n";
        }
        return s;
    }
    case K_CTX: {
        auto &c = *o.ctx;
        orc::Ctx x;
        x.n = c.getNumberOfGuardians();
        x.k = c.getQuorum();
        x.K = zp(*c.getElGamalPublicKey());
        x.commit = zq(*c.getCommitmentHash());
        x.mhash = zq(*c.getManifestHash());
        x.base = zq(*c.getCryptoBaseHash());
        x.ext = zq(*c.getCryptoExtendedBaseHash());
        V<std::pair<S, S>> e;
        for (auto &p : c.getExtendedData())
            e.push_back(p);
        return canon(x, c.getConfiguration()->getAllowOverVotes(), c.getConfiguration()->getMaxNumberOfBallots(), e);
    }
    case K_DEV: return fmt("%lu %lu %lu ", o.dev->getDeviceUuid(), o.dev->getSessionUuid(), o.dev->getLaunchCode()) + json_str(o.dev->getLocation()) + " " + orc::hex(zq(*o.dev->getHash()));
    case K_PLAIN: return canon(ex(*o.pt));
    case K_CIPHER: return canon(ex(*o.cb), false);
    case K_CIPHER_N: return canon(ex(*o.cb), true);
    case K_SUBMITTED: return canon(ex(*o.sb), false);
    case K_COMPACT: return canon(*o.cc->getPlaintext()) + json_str(o.cc->getObjectId()) + fmt(" ts %lu state %d", o.cc->getTimestamp(), (int)o.cc->getBallotBoxState()) + "\nseed " + orc::hex(zq(*o.cc->getBallotCodeSeed())) + "\ncode " + orc::hex(zq(*o.cc->getBallotCode())) + "\nnonce " + orc::hex(zq(*o.cc->getNonce())) + "\n";
    case K_COMPACT_PLAIN: return canon(*o.cp);
    }
    return "";
}
} // namespace scen
