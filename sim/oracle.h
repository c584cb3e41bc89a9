// Independent reference implementation of the ElectionGuard arithmetic, hashing and proof rules.
// Uses GMP and its own SHA-256; shares no code with the library under test.
#pragma once
#include <cstdint>
#include <gmpxx.h>
#include <map>
#include <string>
#include <vector>

namespace orc {
typedef mpz_class Z;
extern Z P, Q, G, R;
void init();

std::string sha256(const std::string &m);
std::string hmac(const std::string &key, const std::string &m);
std::string hex(const Z &v);          // library text form: upper case, whole bytes, no leading zero bytes
std::string bytes(const Z &v, size_t n); // big endian, fixed length
Z from_bytes(const std::string &b);
Z from_hex(const std::string &h);

// hash of a sequence of already formatted elements
struct H {
    std::string s = "|";
    int n = 0;
    H &raw(const std::string &e) { s += e + "|"; n++; return *this; }
    H &z(const Z &v) { return raw(hex(v)); }
    H &u(uint64_t v) { return raw(v ? std::to_string(v) : "null"); }
    H &str(const std::string &v) { return raw(v.empty() ? "null" : v); }
    H &null() { return raw("null"); }
    H &list(const std::vector<std::string> &v); // strings
    H &zlist(const std::vector<Z> &v);          // hashables given by their hash
    Z done();
};

struct FB { // fixed base exponentiation table
    std::vector<Z> t;
    void build(const Z &base);
    Z pow(const Z &e) const;
};
extern FB fbG;
Z gpow(const Z &e);
Z powm(const Z &b, const Z &e);
Z modq(const Z &v);
bool residue(const Z &v); // 0 < v < P and v^Q = 1

// ---------------------------------------------------------------- election and ballot records
struct Sel {
    std::string id;
    uint64_t seq = 0;
    Z desc, pad, data, hash, nonce;
    bool placeholder = false, has_nonce = false, has_proof = false;
    Z zp, zd, op, od, c0, c1, c, v0, v1;
};
struct Con {
    std::string id;
    uint64_t seq = 0;
    Z desc, accp, accd, hash, nonce;
    bool has_nonce = false, has_proof = false, has_acc = false, has_ext = false;
    std::vector<Sel> sels;
    Z pp, pd, pc, pv;
    uint64_t pconst = 0;
    Z hpad;
    std::string hdata, hmac;
};
struct Bal {
    std::string id, style;
    Z mhash, seed, code, hash, nonce;
    uint64_t ts = 0;
    bool has_nonce = false;
    int state = 0;
    std::vector<Con> cons;
};
struct Ctx {
    Z s, K, mhash, base, ext, commit;
    uint64_t n = 1, k = 1;
    const FB *fbK = nullptr;
    Z kpow(const Z &e) const { return fbK ? fbK->pow(e) : powm(K, e); }
};

Z sel_hash(const Sel &s);
Z con_hash(const Con &c);
Z bal_hash(const Bal &b);
Z ballot_code(const Z &seed, uint64_t ts, const Z &hash);
Z device_hash(uint64_t dev, uint64_t sess, uint64_t launch, const std::string &loc);

// full independent verification; empty string = accepted. strict: also ballot code and extended data, batched subgroup test;
// not strict: exactly what a verifier of the published proofs and hashes has to reject
std::string verify(const Bal &b, const Ctx &c, uint64_t batch_seed, bool strict = true);
// exponent m in g^m for 0..maxm, or -1
int64_t decrypt(const Z &pad, const Z &data, const Ctx &c, int64_t maxm);
// opens sealed extended data: returns false when refused
bool open_sealed(const Z &pad, const std::string &data, const std::string &mac, const Z &s, const Z &seed, std::string &out);
bool seal_len_ok(const std::string &data);
bool eq(const Bal &a, const Bal &b, bool nonces, std::string &why);
uint64_t digest(const Bal &b);
} // namespace orc
