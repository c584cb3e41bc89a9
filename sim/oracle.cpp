#include "oracle.h"
#include <cstring>
namespace orc {
Z P, Q, G, R;
FB fbG;
static const char *PHEX =
  "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF93C467E37DB0C7A4D1BE3F810152CB56"
  "A1CECC3AF65CC0190C03DF34709AFFBD8E4B59FA03A9F0EED0649CCB621057D11056AE9132135A08E43B4673D74BAFEA"
  "58DEB878CC86D733DBE7BF38154B36CF8A96D1567899AAAE0C09D4C8B6B7B86FD2A1EA1DE62FF8643EC7C27182797722"
  "5E6AC2F0BD61C746961542A3CE3BEA5DB54FE70E63E6D09F8FC28658E80567A47CFDE60EE741E5D85A7BD46931CED822"
  "0365594964B839896FCAABCCC9B31959C083F22AD3EE591C32FAB2C7448F2A057DB2DB49EE52E0182741E53865F004CC"
  "8E704B7C5C40BF304C4D8C4F13EDF6047C555302D2238D8CE11DF2424F1B66C2C5D238D0744DB679AF2890487031F9C0"
  "AEA1C4BB6FE9554EE528FDF1B05E5B256223B2F09215F3719F9C7CCC69DDF172D0D6234217FCC0037F18B93EF5389130"
  "B7A661E5C26E54214068BBCAFEA32A67818BD3075AD1F5C7E9CC3D1737FB28171BAF84DBB6612B7881C1A48E439CD03A"
  "92BF52225A2B38E6542E9F722BCE15A381B5753EA842763381CCAE83512B30511B32E5E8D80362149AD030AABA5F3A57"
  "98BB22AA7EC1B6D0F17903F4E22D840734AA85973F79A93FFB82A75C47C03D43D2F9CA02D03199BACEDDD4533A52566A"
  "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF";

// ---------------------------------------------------------------- SHA-256
static const uint32_t K256[64] = {
  0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be,
  0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
  0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85,
  0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
  0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f,
  0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
static inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
std::string sha256(const std::string &m)
{
    uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    std::string d = m;
    d += (char)0x80;
    while (d.size() % 64 != 56)
        d += (char)0;
    uint64_t bits = (uint64_t)m.size() * 8;
    for (int i = 7; i >= 0; i--)
        d += (char)(bits >> (8 * i));
    for (size_t o = 0; o < d.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t)(uint8_t)d[o + 4 * i] << 24 | (uint32_t)(uint8_t)d[o + 4 * i + 1] << 16 |
                   (uint32_t)(uint8_t)d[o + 4 * i + 2] << 8 | (uint8_t)d[o + 4 * i + 3];
        for (int i = 16; i < 64; i++)
            w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] +
                   (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
        uint32_t a = h[0], b = h[1], c = h[2], e0 = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + K256[i] + w[i];
            uint32_t t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
            hh = g; g = f; f = e; e = e0 + t1; e0 = c; c = b; b = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += e0; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }
    std::string r;
    for (int i = 0; i < 8; i++)
        for (int k = 3; k >= 0; k--)
            r += (char)(h[i] >> (8 * k));
    return r;
}
std::string hmac(const std::string &key, const std::string &m)
{
    std::string k = key.size() > 64 ? sha256(key) : key;
    k.resize(64, 0);
    std::string i = k, o = k;
    for (auto &c : i)
        c ^= 0x36;
    for (auto &c : o)
        c ^= 0x5c;
    return sha256(o + sha256(i + m));
}
// ---------------------------------------------------------------- numbers
std::string hex(const Z &v)
{
    if (v == 0)
        return "00";
    std::string s = v.get_str(16);
    for (auto &c : s)
        c = (char)toupper(c);
    return s.size() & 1 ? "0" + s : s;
}
std::string bytes(const Z &v, size_t n)
{
    std::string r(n, 0);
    size_t cnt = 0;
    std::string t((mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8 + 1, 0);
    mpz_export(&t[0], &cnt, 1, 1, 1, 0, v.get_mpz_t());
    if (cnt > n)
        return t.substr(0, cnt);
    memcpy(&r[n - cnt], t.data(), cnt);
    return r;
}
Z from_bytes(const std::string &b)
{
    Z r;
    mpz_import(r.get_mpz_t(), b.size(), 1, 1, 1, 0, b.data());
    return r;
}
Z from_hex(const std::string &h) { return h.empty() ? Z(0) : Z(h, 16); }
H &H::list(const std::vector<std::string> &v)
{
    if (v.empty())
        return null();
    H h;
    for (auto &s : v)
        h.str(s);
    return z(h.done());
}
H &H::zlist(const std::vector<Z> &v)
{
    if (v.empty())
        return null();
    H h;
    for (auto &s : v)
        h.z(s);
    return z(h.done());
}
Z H::done()
{
    if (!n)
        s += "null|";
    Z r = from_bytes(sha256(s));
    return r % Q;
}
void FB::build(const Z &base)
{
    t.resize(32 * 256);
    Z row = base;
    for (int i = 0; i < 32; i++) {
        t[i * 256] = 1;
        for (int j = 1; j < 256; j++)
            t[i * 256 + j] = t[i * 256 + j - 1] * row % P;
        row = t[i * 256 + 255] * row % P;
    }
}
Z FB::pow(const Z &e) const
{
    std::string b = bytes(e, 32);
    if (b.size() > 32)
        return powm(t[1], e);
    Z r = 1;
    for (int i = 0; i < 32; i++) {
        uint8_t d = (uint8_t)b[31 - i];
        if (d)
            r = r * t[i * 256 + d] % P;
    }
    return r;
}
Z gpow(const Z &e) { return fbG.pow(e); }
Z powm(const Z &b, const Z &e)
{
    Z r;
    mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), P.get_mpz_t());
    return r;
}
Z modq(const Z &v)
{
    Z r;
    mpz_mod(r.get_mpz_t(), v.get_mpz_t(), Q.get_mpz_t());
    return r;
}
bool residue(const Z &v) { return v > 0 && v < P && powm(v, Q) == 1; }
void init()
{
    P = Z(PHEX, 16);
    Q = (Z(1) << 256) - 189;
    R = (P - 1) / Q;
    G = powm(2, R);
    fbG.build(G);
}
// ---------------------------------------------------------------- hashes
Z sel_hash(const Sel &s) { return H().str(s.id).z(s.desc).z(H().z(s.pad).z(s.data).done()).done(); }
Z con_hash(const Con &c)
{
    H h;
    h.str(c.id).z(c.desc);
    for (auto &s : c.sels)
        h.z(s.hash);
    return h.done();
}
Z bal_hash(const Bal &b)
{
    H h;
    h.str(b.id).z(b.mhash);
    for (auto &c : b.cons)
        h.z(c.hash);
    return h.done();
}
Z ballot_code(const Z &seed, uint64_t ts, const Z &hash) { return H().z(seed).u(ts).z(hash).done(); }
Z device_hash(uint64_t dev, uint64_t sess, uint64_t launch, const std::string &loc)
{
    return H().u(dev).u(sess).u(launch).str(loc).done();
}
// ---------------------------------------------------------------- verification
static bool inq(const Z &v) { return v >= 0 && v < Q; }
static bool inp(const Z &v) { return v > 0 && v < P; }
std::string verify(const Bal &b, const Ctx &c, uint64_t bs, bool strict)
{
    std::vector<Z> must; // elements that have to lie in the subgroup
    std::vector<const char *> what;
    auto sub = [&](const Z &v, const char *w) {
        must.push_back(v);
        what.push_back(w);
        return inp(v);
    };
    if (b.mhash != c.mhash)
        return "manifest hash differs from the context";
    for (auto &k : b.cons) {
        Z ap = 1, ad = 1;
        if (k.sels.empty())
            return "contest " + k.id + " has no selections";
        for (auto &s : k.sels) {
            std::string at = " (selection " + s.id + ")";
            if (!s.has_proof)
                return "range proof missing" + at;
            if (s.hash != sel_hash(s))
                return "selection crypto hash wrong" + at;
            for (const Z *v : {&s.pad, &s.data, &s.zp, &s.zd, &s.op, &s.od})
                if (!sub(*v, "selection"))
                    return "element out of range" + at;
            for (const Z *v : {&s.c0, &s.c1, &s.c, &s.v0, &s.v1})
                if (!inq(*v))
                    return "proof scalar out of range" + at;
            Z ch = H().z(c.ext).z(s.pad).z(s.data).z(s.zp).z(s.zd).z(s.op).z(s.od).done();
            if (s.c != ch)
                return "range proof challenge is not the specified hash" + at;
            if (modq(s.c0 + s.c1) != s.c)
                return "range proof challenges do not add up" + at;
            if (gpow(s.v0) != s.zp * powm(s.pad, s.c0) % P)
                return "range proof equation g^v0 = a0*alpha^c0 fails" + at;
            if (gpow(s.v1) != s.op * powm(s.pad, s.c1) % P)
                return "range proof equation g^v1 = a1*alpha^c1 fails" + at;
            if (c.kpow(s.v0) != s.zd * powm(s.data, s.c0) % P)
                return "range proof equation K^v0 = b0*beta^c0 fails" + at;
            if (gpow(s.c1) * c.kpow(s.v1) % P != s.od * powm(s.data, s.c1) % P)
                return "range proof equation g^c1*K^v1 = b1*beta^c1 fails" + at;
            ap = ap * s.pad % P;
            ad = ad * s.data % P;
        }
        std::string at = " (contest " + k.id + ")";
        if (!k.has_proof || !k.has_acc)
            return "selection count proof or accumulation missing" + at;
        if (k.accp != ap || k.accd != ad)
            return "accumulation is not the product of the selections" + at;
        if (k.hash != con_hash(k))
            return "contest crypto hash wrong" + at;
        for (const Z *v : {&k.pp, &k.pd})
            if (!sub(*v, "contest"))
                return "element out of range" + at;
        if (!inq(k.pc) || !inq(k.pv))
            return "proof scalar out of range" + at;
        Z ch = H().z(c.ext).z(ap).z(ad).z(k.pp).z(k.pd).done();
        if (k.pc != ch)
            return "count proof challenge is not the specified hash" + at;
        if (gpow(k.pv) != k.pp * powm(ap, k.pc) % P)
            return "count proof equation g^v = a*A^c fails" + at;
        if (gpow(modq(Z((unsigned long)k.pconst) * k.pc)) * c.kpow(k.pv) % P != k.pd * powm(ad, k.pc) % P)
            return "count proof equation g^(L*c)*K^v = b*B^c fails" + at;
        if (!strict)
            continue;
        if (!k.has_ext)
            return "extended data missing" + at;
        if (!sub(k.hpad, "extended data pad"))
            return "element out of range" + at;
    }
    if (b.hash != bal_hash(b))
        return "ballot crypto hash wrong";
    if (!strict) { // adversarial input: every element for itself
        for (size_t i = 0; i < must.size(); i++)
            if (!residue(must[i]))
                return std::string(what[i]) + " element not in the subgroup";
        return "";
    }
    if (b.code != ballot_code(b.seed, b.ts, b.hash))
        return "ballot code is not the specified hash of seed, timestamp and ballot hash";
    // subgroup membership, batched with small random exponents (seeded: repeatable)
    Z acc = 1;
    uint64_t x = bs | 1;
    for (auto &v : must) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        acc = acc * powm(v, Z((unsigned long)(x >> 24 | 1))) % P;
    }
    if (powm(acc, Q) != 1) {
        for (size_t i = 0; i < must.size(); i++)
            if (!residue(must[i]))
                return std::string(what[i]) + " element not in the subgroup";
        return "element not in the subgroup";
    }
    return "";
}
int64_t decrypt(const Z &pad, const Z &data, const Ctx &c, int64_t maxm)
{
    Z d = powm(pad, c.s), inv;
    if (!mpz_invert(inv.get_mpz_t(), d.get_mpz_t(), P.get_mpz_t()))
        return -1;
    Z m = data * inv % P, g = 1;
    for (int64_t i = 0; i <= maxm; i++) {
        if (g == m)
            return i;
        g = g * G % P;
    }
    return -1;
}
static std::string le32(uint32_t v)
{
    std::string s;
    for (int i = 0; i < 4; i++)
        s += (char)(v >> (8 * i));
    return s;
}
bool open_sealed(const Z &pad, const std::string &data, const std::string &mac, const Z &s, const Z &seed, std::string &out)
{
    if (data.empty() || data.size() % 32)
        return false;
    uint32_t nb = (uint32_t)data.size() / 32;
    Z session = H().z(pad).z(powm(pad, s)).done();
    std::string sk = bytes(session, 32), sb = bytes(seed, 32), len = le32(nb * 256);
    std::string mk = hmac(sk, le32(0) + sb + len);
    if (hmac(mk, bytes(pad, 512) + data) != mac)
        return false;
    std::string pt;
    for (uint32_t i = 0; i < nb; i++) {
        std::string k = hmac(sk, le32(i + 1) + sb + len);
        for (int j = 0; j < 32; j++)
            pt += (char)(data[i * 32 + j] ^ k[j]);
    }
    uint32_t pl = (uint32_t)(uint8_t)pt[0] << 8 | (uint8_t)pt[1];
    if (pl > pt.size() - 2)
        return false;
    for (uint32_t i = 0; i < pl; i++)
        if (pt[pt.size() - 1 - i])
            return false;
    out = pt.substr(2, pt.size() - 2 - pl);
    return true;
}
bool seal_len_ok(const std::string &d) { return d.size() == 512; }
#define CMP(f) if (a.f != b.f) { why = at + #f; return false; }
bool eq(const Bal &a, const Bal &b, bool nonces, std::string &why)
{
    std::string at = "ballot.";
    CMP(id) CMP(style) CMP(mhash) CMP(seed) CMP(code) CMP(hash) CMP(ts) CMP(state)
    if (nonces) { CMP(has_nonce) CMP(nonce) }
    CMP(cons.size())
    for (size_t i = 0; i < a.cons.size(); i++) {
        auto &x = a.cons[i];
        auto &y = b.cons[i];
        auto cmp = [&](const Con &a, const Con &b) {
            std::string at = "contest.";
            CMP(id) CMP(seq) CMP(desc) CMP(accp) CMP(accd) CMP(hash) CMP(has_proof) CMP(has_acc) CMP(has_ext)
            if (nonces) { CMP(has_nonce) CMP(nonce) }
            CMP(pp) CMP(pd) CMP(pc) CMP(pv) CMP(pconst) CMP(hpad) CMP(hdata) CMP(hmac) CMP(sels.size())
            for (size_t j = 0; j < a.sels.size(); j++) {
                auto &p = a.sels[j];
                auto &q = b.sels[j];
                auto c2 = [&](const Sel &a, const Sel &b) {
                    std::string at = "selection.";
                    CMP(id) CMP(seq) CMP(desc) CMP(pad) CMP(data) CMP(hash) CMP(placeholder) CMP(has_proof)
                    if (nonces) { CMP(has_nonce) CMP(nonce) }
                    CMP(zp) CMP(zd) CMP(op) CMP(od) CMP(c0) CMP(c1) CMP(c) CMP(v0) CMP(v1)
                    return true;
                };
                if (!c2(p, q))
                    return false;
            }
            return true;
        };
        if (!cmp(x, y))
            return false;
    }
    return true;
}
uint64_t digest(const Bal &b)
{
    std::string s = b.id + b.style + hex(b.hash) + hex(b.code) + std::to_string(b.ts);
    for (auto &c : b.cons)
        s += hex(c.pp) + hex(c.pv) + c.hmac;
    std::string h = sha256(s);
    uint64_t v;
    memcpy(&v, h.data(), 8);
    return v;
}
} // namespace orc
