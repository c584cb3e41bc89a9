// The artifacts an election stores, uniformly: build, store, load (C++ and C, every format), canonical text of what a reader can observe.
#pragma once
#include "place.h"
namespace scen {
enum Kind { K_MAN, K_IM, K_CTX, K_DEV, K_PLAIN, K_CIPHER, K_CIPHER_N, K_SUBMITTED, K_COMPACT, K_COMPACT_PLAIN, K_N };
extern const char *KIND[K_N], *FMN[FM_N];
struct Obj {
    int kind = -1;
    UP<eg::Manifest> man;
    UP<eg::InternalManifest> im;
    UP<eg::CiphertextElectionContext> ctx;
    UP<eg::EncryptionDevice> dev;
    UP<eg::PlaintextBallot> pt;
    UP<eg::CiphertextBallot> cb; // also with nonces
    UP<eg::SubmittedBallot> sb;
    UP<eg::CompactCiphertextBallot> cc;
    UP<eg::CompactPlaintextBallot> cp;
    void drop(); // in library scope
};
bool has_fmt(int kind, int fm, bool capi);
S put(const Obj &o, int fm, bool capi);                       // library scope; an error status throws
Obj get(int kind, int fm, const S &bytes, bool capi);         // library scope; an error status throws
S canon(const Obj &o);                                        // host scope
S canon(const MMan &m);
S canon_im(const MMan &m);
S canon(const orc::Ctx &c, bool over, u64 maxb, V<std::pair<S, S>> ext);
S canon(const VBal &v);
S canon(const Bal &b, bool nonces);
void plan_crash(u32 inc, double p);
S damage(const S &s, Fault &k, bool &hit);
S diff(const S &a, const S &b);
struct StatusError : std::runtime_error {
    int st;
    StatusError(const char *f, int s) : std::runtime_error(S(f) + " returned status " + std::to_string(s)), st(s) {}
};
// a function of the C interface that returns a status never lets an exception out
template <class F> int guarded(const char *name, F f)
{
    try {
        return (int)f();
    } catch (const std::exception &e) {
        violation("c-api-threw", "%s let an exception escape: %s", name, e.what());
    } catch (...) {
        violation("c-api-threw", "%s let a non-standard exception escape", name);
    }
}
inline void st_check(const char *f, int s)
{
    if (s)
        throw StatusError(f, s);
}
#define ST(F, ...) st_check(#F, guarded(#F, [&] { return F(__VA_ARGS__); }))
UP<eg::Manifest> mk_c(const MMan &m);
UP<eg::Manifest> copy_of(const eg::Manifest &m, bool assign, const MMan &order);
UP<eg::CiphertextElectionContext> ctx_by(int form, const orc::Ctx &c);
} // namespace scen
