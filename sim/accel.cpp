// Modular exponentiation of the vendored arithmetic library: in most runs computed by GMP (same
// mathematical function, far faster); in the others the real routine runs. Only calls that satisfy
// the routine's documented preconditions are replaced.
#include "rt.h"
#include "accel.h"
#include <cstring>
#include <gmp.h>
namespace sim {
bool accel = false;
u64 accel_calls = 0, real_calls = 0;
}
using namespace sim;
struct MontCtx { u32 len; u64 *n; u64 mu; u64 *r2; };
static bool fast(const u64 *n, const u64 *a, u32 bits, const u64 *b, u64 *res)
{
    if (!accel || mpn_cmp((mp_srcptr)a, (mp_srcptr)n, 64) >= 0) {
        real_calls++;
        return false;
    }
    u32 words = (bits + 63) / 64;
    if (words > 64)
        return false;
    mp_limb_t e[64];
    memcpy(e, b, words * 8);
    if (bits % 64 && (e[words - 1] >> (bits % 64)))
        return false;
    mpz_t N, A, E, r;
    Host h;
    mpz_init(r);
    mpz_powm(r, mpz_roinit_n(A, (mp_srcptr)a, 64), mpz_roinit_n(E, e, words), mpz_roinit_n(N, (mp_srcptr)n, 64));
    memset(res, 0, 512);
    memcpy(res, mpz_limbs_read(r), mpz_size(r) * 8);
    mpz_clear(r);
    accel_calls++;
    return true;
}
extern "C" {
void __real_Hacl_Bignum4096_mod_exp_consttime_precomp(MontCtx *k, u64 *a, u32 bits, u64 *b, u64 *res);
void __real_Hacl_Bignum4096_mod_exp_vartime_precomp(MontCtx *k, u64 *a, u32 bits, u64 *b, u64 *res);
void __wrap_Hacl_Bignum4096_mod_exp_consttime_precomp(MontCtx *k, u64 *a, u32 bits, u64 *b, u64 *res)
{
    if (!fast(k->n, a, bits, b, res))
        __real_Hacl_Bignum4096_mod_exp_consttime_precomp(k, a, bits, b, res);
}
void __wrap_Hacl_Bignum4096_mod_exp_vartime_precomp(MontCtx *k, u64 *a, u32 bits, u64 *b, u64 *res)
{
    if (!fast(k->n, a, bits, b, res))
        __real_Hacl_Bignum4096_mod_exp_vartime_precomp(k, a, bits, b, res);
}
}
