/* Ideal key ladder for the key-store properties.  The MAC is a perfect one: every message that was never authenticated
 * before gets a tag of its own, and no container presented by the caller carries a tag that was not issued before.
 * The cipher is a perfect one: only what was produced by wrapping under the same inputs and IV unwraps to a known
 * plaintext; anything else sets vp_bad_unwrap.  The wrapped form is the plain text itself, so that constants propagate. */
#include "env.h"
#include "porting/otp.h"
#include "porting/otp_internal.h"
#include "stored_key_internal.h"
#ifndef VP_MSGS
#define VP_MSGS 3
#endif
#ifndef VP_CT
#define VP_CT 48
#endif
/* everything is kept as 64-bit words at constant positions */
#define KW ((sizeof(key_ladder_inputs_t) + 7) / 8)
#define HW ((sizeof(sa_header) + 7) / 8)
#define CW (VP_CT / 8)
const uint8_t* vp_presented_tag; /* 32 bytes, or NULL */
bool vp_bad_unwrap;
typedef struct { uint64_t k[KW], h[HW], p[3], c[CW]; size_t n; } msg_t;
static msg_t M[VP_MSGS];
static unsigned m_used;
typedef struct { uint64_t k[KW], iv[2]; uint8_t c[VP_CT]; size_t n; } wrap_t;
static wrap_t W[VP_MSGS];
static unsigned w_used;
static void words(uint64_t* to, const void* from, size_t n) {
    const uint8_t* f = from;
    for (size_t i = 0; 8 * i < n; i++) {
        uint64_t w = 0;
        if (8 * i + 8 <= n)
            memcpy(&w, f + 8 * i, 8);
        else
            memcpy(&w, f + 8 * i, 4);
        to[i] = w;
    }
}
static bool same_words(const uint64_t* a, const uint64_t* b, size_t n) {
    uint64_t d = 0;
    for (size_t i = 0; i < n; i++)
        d |= a[i] ^ b[i];
    return d == 0;
}
static void ctwords(uint64_t* to, const void* from, size_t n) {
    const uint8_t* f = from;
    for (size_t i = 0; i < CW; i++) {
        uint64_t w = 0;
        if (8 * i + 8 <= n)
            memcpy(&w, f + 8 * i, 8);
        to[i] = w;
    }
}
sa_status otp_wrap_aes_cbc(void* wrapped, const key_ladder_inputs_t* k, const void* in, size_t n, const void* iv) {
    vp_env_assert(n <= VP_CT && n % 16 == 0, "wrapping whole blocks of a bounded key");
    if (vp_fails(vp_fault_otp) || n > VP_CT)
        return SA_STATUS_INTERNAL_ERROR;
    vp_env_assert(w_used < VP_MSGS, "wrap table large enough");
    vp_assume(w_used < VP_MSGS);
    wrap_t x;
    words(x.k, k, sizeof *k);
    words(x.iv, iv, 16);
    for (size_t i = 0; i < VP_CT; i++)
        x.c[i] = i < n ? ((const uint8_t*) in)[i] : 0;
    x.n = n;
    for (size_t i = 0; i < VP_CT; i++)
        if (i < n)
            ((uint8_t*) wrapped)[i] = x.c[i];
    W[w_used++] = x;
    return SA_STATUS_OK;
}
sa_status otp_unwrap_aes_cbc(void* out, const key_ladder_inputs_t* k, const void* wrapped, size_t n, const void* iv) {
    if (vp_fails(vp_fault_otp) || n > VP_CT || n % 16 != 0)
        return SA_STATUS_INTERNAL_ERROR;
    wrap_t x;
    words(x.k, k, sizeof *k);
    words(x.iv, iv, 16);
    for (size_t i = 0; i < VP_CT; i++)
        x.c[i] = i < n ? ((const uint8_t*) wrapped)[i] : 0;
    bool match[VP_MSGS], any = false;
    for (unsigned i = 0; i < VP_MSGS; i++) {
        uint8_t d = 0;
        for (size_t j = 0; j < VP_CT; j++)
            d |= W[i].c[j] ^ x.c[j];
        match[i] = i < w_used && W[i].n == n && d == 0 && same_words(W[i].k, x.k, KW) && same_words(W[i].iv, x.iv, 2);
        any = any || match[i];
    }
    if (!any)
        vp_bad_unwrap = true;
    for (size_t j = 0; j < VP_CT; j++) {
        uint8_t o = W[0].c[j]; /* what was wrapped; constant bytes (the padding) stay constant */
        for (unsigned i = 1; i < VP_MSGS; i++)
            if (i < w_used)
                o = match[i] ? W[i].c[j] : o;
        if (j < n)
            ((uint8_t*) out)[j] = o;
    }
    return SA_STATUS_OK;
}
static void tag_of(uint8_t* tag, unsigned i) {
    for (int j = 0; j < 32; j++)
        tag[j] = (uint8_t) (0x5A + 16 * i + 7 * j);
}
sa_status otp_hmac_sha256(void* mac, const key_ladder_inputs_t* k, const void* in1, size_t l1, const void* in2, size_t l2, const void* in3, size_t l3) {
    vp_env_assert(l1 == sizeof(sa_header) && l2 == 24, "the MAC covers the header and the cipher parameters");
    if (vp_fails(vp_fault_otp))
        return SA_STATUS_INTERNAL_ERROR;
    if (l1 != sizeof(sa_header) || l2 != 24)
        return SA_STATUS_INTERNAL_ERROR;
    uint8_t t[32];
    msg_t x;
    words(x.k, k, sizeof *k);
    words(x.h, in1, sizeof(sa_header));
    words(x.p, in2, 24);
    if (l3 > VP_CT) /* never issued: some tag that nobody presents */
        l3 = VP_CT + 1;
    ctwords(x.c, in3, l3 > VP_CT ? VP_CT : l3);
    for (unsigned i = 0; i < VP_MSGS; i++)
        if (i < m_used && M[i].n == l3 && same_words(M[i].k, x.k, KW) && same_words(M[i].h, x.h, HW) && same_words(M[i].p, x.p, 3) && same_words(M[i].c, x.c, CW)) {
            tag_of(mac, i);
            return SA_STATUS_OK;
        }
    vp_env_assert(m_used < VP_MSGS, "MAC table large enough");
    vp_assume(m_used < VP_MSGS);
    tag_of(t, m_used);
    if (vp_presented_tag != NULL) {
        uint64_t a[4], b[4];
        memcpy(a, t, 32);
        memcpy(b, vp_presented_tag, 32);
        vp_assume(!same_words(a, b, 4));
    }
    x.n = l3;
    M[m_used++] = x;
    memcpy(mac, t, 32);
    return SA_STATUS_OK;
}
