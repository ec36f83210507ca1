/* Leaf helpers: padding, memory, random bytes, identifiers, digests, allow-all rights. */
#include "digest_util.h"
#include "env.h"
#include "pad.h"
#include "porting/memory.h"
#include "porting/overflow.h"
#include "porting/rand.h"
#include "rights.h"
#include "sa_rights.h"
#include "ta_sa.h"
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <openssl/rand.h>
#include <stdlib.h>
#include <limits.h>

#if OP == 1 /* PKCS#7 */
void HARNESS(void) {
    uint8_t* block = vp_buf_at(16, 16);
    uint8_t copy[16];
    memcpy(copy, block, 16);
    uint8_t pad = nd_u8();
    bool ok = pad_check_pkcs7(&pad, block);
    uint8_t n = copy[15];
    bool want = n >= 1 && n <= 16;
    for (int i = 0; i < 16; i++)
        if (want && i >= 16 - n && copy[i] != n)
            want = false;
    P(19, ok == want, "C19: a block is accepted exactly when its last byte n is 1..16 and its last n bytes equal n");
    P(19, !ok || pad == n, "C19: the pad length reported is the pad value");
    for (int i = 0; i < 16; i++)
        P(19, block[i] == copy[i], "C19: checking does not change the block");
    uint8_t v = nd_u8();
    ok = pad_apply_pkcs7(block, v);
    P(19, ok == (v >= 1 && v <= 16), "C19: exactly the pads 1..16 are applied");
    for (int i = 0; i < 16; i++)
        P(19, block[i] == (ok && i >= 16 - v ? v : copy[i]), "C19: padding changes exactly the last n bytes");
    if (ok) {
        vp_reach("padded");
        uint8_t got = 0;
        P(19, pad_check_pkcs7(&got, block) && got == v, "C19: an applied pad is accepted and reported exactly");
    }
    P(19, !pad_check_pkcs7(NULL, block) && !pad_check_pkcs7(&v, NULL) && !pad_apply_pkcs7(NULL, 4), "C19: null arguments are refused");
}
#elif OP == 2 /* memory */
#ifndef LEN
#define LEN 24
#endif
static unsigned long branches;
void vp_branch(const char* where) { branches++; }
#ifndef VP_CBMC
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) { branches++; }
#endif
void HARNESS(void) {
    size_t n = nd_size(LEN);
    uint8_t* a = vp_buf_at(LEN, n);
    uint8_t* b = vp_buf_at(LEN, n);
    branches = 0;
    int r = memory_memcmp_constant(a, b, n);
    unsigned long first = branches;
    bool eq = true;
    for (size_t i = 0; i < LEN; i++)
        if (i < n && a[i] != b[i])
            eq = false;
    P(20, (r == 0) == eq, "C20: the comparison reports equality exactly when all bytes are equal");
    uint8_t* c = vp_buf_at(LEN, n);
    uint8_t* d = vp_buf_at(LEN, n);
    branches = 0;
    (void) memory_memcmp_constant(c, d, n);
    unsigned long second = branches;
    P(20, second == first, "C20: the comparison takes the same steps for every content of a given length");
    if (eq) vp_reach("equal");
    uint8_t v = nd_u8();
    uint8_t ref[LEN];
    uint8_t* whole = vp_buf_at(LEN, LEN);
    memcpy(ref, whole, LEN);
    size_t off = nd_size(LEN - n);
    void* ret = memory_memset_unoptimizable(whole + off, v, n);
    P(20, ret == whole + off, "C20: clearing returns its destination");
    for (size_t i = 0; i < LEN; i++)
        P(20, whole[i] == (i >= off && i < off + n ? v : ref[i]), "C20: clearing sets every byte of its range and no other");
    unsigned long x = nd_u64(), y = nd_u64(), z = nd_u64();
    bool of = add_overflow(x, y, &z);
    P(20, of == (x > ULONG_MAX - y), "C20: addition reports overflow exactly when it occurs");
    P(20, z == x + y, "C20: addition yields the sum");
    P(20, memory_is_valid_clear((void*) x, y) == (x != 0 && x <= ULONG_MAX - y), "C20: a clear range is valid exactly if it is not null and does not wrap");
    P(20, memory_is_valid_svp((void*) x, y) == (x != 0 && x <= ULONG_MAX - y), "C20: an SVP range is valid exactly if it is not null and does not wrap");
    /* allocation wrappers give a block of the size asked for */
    size_t want = 1 + nd_size(31);
    uint8_t* m = nd_bool() ? memory_secure_alloc(want) : memory_internal_alloc(want);
    if (m != NULL) {
        m[0] = 1;
        m[want - 1] = v;
        size_t more = want + nd_size(8);
        uint8_t* m2 = nd_bool() ? memory_secure_realloc(m, more) : memory_internal_realloc(m, more);
        if (m2 != NULL) {
            P(20, want == 1 || m2[0] == 1, "C20: reallocation keeps the content");
            P(20, m2[want - 1] == v, "C20: reallocation keeps the content");
            m2[more - 1] = 1;
            m = m2;
        }
        if (nd_bool()) memory_secure_free(m);
        else memory_internal_free(m);
    }
}
#elif OP == 3 /* random bytes */
static unsigned calls;
static const uint8_t* base;
static size_t done; /* prefix of the buffer that the generator filled without a gap */
static bool bad;
int RAND_bytes(unsigned char* buf, int num) {
    calls++;
    int r = nd_int();
    vp_assume(r == 1 || r == 0 || r == -1);
    if (num < 0 || r != 1) {
        bad = true;
        return num < 0 ? 0 : r;
    }
    if (buf == base + done)
        done += (size_t) num;
    return 1;
}
int RAND_priv_bytes(unsigned char* buf, int num) { return RAND_bytes(buf, num); }
void HARNESS(void) {
    uint8_t* p = nd_bool() ? NULL : vp_buf_at(16, 16);
    size_t n = nd_u64();
    vp_assume(n <= (1ULL << 34));
    base = p;
    bool ok = rand_bytes(p, n);
    P(26, !ok || p != NULL, "C26: a null buffer is refused");
    P(26, !ok || done == n, "C26: success means that the generator filled the whole buffer");
    P(26, !ok || !bad, "C26: a generator failure is reported");
    P(11, !ok || !bad, "C11: a generator failure is reported");
    if (ok && n > 100) vp_reach("filled");
    bool refused = !ok && p != NULL && !bad;
    P(26, !refused || n > INT32_MAX || n == 0, "C26: a request the generator can serve is served");
    done = 0;
    bad = false;
    sa_uuid u;
    ND_OBJ(u);
    bool nouid = nd_bool();
    sa_status st = ta_sa_crypto_random(p, n, nd_u32(), nouid ? NULL : &u);
    P(26, st != SA_STATUS_OK || (p != NULL && !nouid && !bad && done == n), "C26: a successful random request filled the whole buffer");
    P(11, st != SA_STATUS_OK || !bad, "C11: a generator failure is reported");
}
#elif OP == 4 /* textual TA identifiers */
static int hexval(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
void HARNESS(void) {
    size_t n;
    char* s = vp_buf(40, &n);
    sa_uuid u, before;
    ND_OBJ(u);
    before = u;
    bool ok = convert_uuid(s, n, &u);
    sa_uuid want;
    memset(&want, 0, sizeof want);
    bool valid = n == 36;
    if (valid) {
        int j = 0;
        for (int i = 0; i < 36; i++) {
            if (i == 8 || i == 13 || i == 18 || i == 23) {
                if (s[i] != '-') valid = false;
                continue;
            }
            int v = hexval(s[i]);
            if (v < 0) valid = false;
            want.id[j / 2] = (uint8_t) (want.id[j / 2] * 16 + (v & 15));
            j++;
        }
    }
    P(28, ok == valid, "C28: exactly the texts of the canonical form are accepted");
    if (ok && valid) {
        vp_reach("converted");
        for (int i = 0; i < 16; i++)
            P(28, u.id[i] == want.id[i], "C28: the identifier holds the bytes that the text denotes");
    }
}
#elif OP == 5 /* digests and the allow-all helper */
static struct { int nid; } md[4] = {{NID_sha1}, {NID_sha256}, {NID_sha384}, {NID_sha512}};
const EVP_MD* EVP_sha1(void) { return (const EVP_MD*) &md[0]; }
const EVP_MD* EVP_sha256(void) { return (const EVP_MD*) &md[1]; }
const EVP_MD* EVP_sha384(void) { return (const EVP_MD*) &md[2]; }
const EVP_MD* EVP_sha512(void) { return (const EVP_MD*) &md[3]; }
static int any_nid;
int EVP_MD_get_type(const EVP_MD* m) { return m == (const EVP_MD*) &any_nid ? any_nid : ((const int*) m)[0]; }
static bool has(const char* t, const char* two) {
    for (int i = 0; i + 2 < 8; i++)
        if (t[i] == two[0] && t[i + 1] == two[1])
            return true;
    return false;
}
void HARNESS(void) {
    sa_digest_algorithm a = nd_u32();
    size_t len = digest_length(a);
    const EVP_MD* m = digest_mechanism(a);
    const char* s = digest_string(a);
    bool known = a == SA_DIGEST_ALGORITHM_SHA1 || a == SA_DIGEST_ALGORITHM_SHA256 || a == SA_DIGEST_ALGORITHM_SHA384 || a == SA_DIGEST_ALGORITHM_SHA512;
    size_t wl = a == SA_DIGEST_ALGORITHM_SHA1 ? 20 : a == SA_DIGEST_ALGORITHM_SHA256 ? 32 : a == SA_DIGEST_ALGORITHM_SHA384 ? 48 : 64;
    P(28, len == (known ? wl : SIZE_MAX), "C28: the digest length is the algorithm's, or refused");
    P(28, (m != NULL) == known && (s != NULL) == known, "C28: every digest algorithm, and nothing else, has a name and a mechanism");
    if (known) {
        int i = a == SA_DIGEST_ALGORITHM_SHA1 ? 0 : a == SA_DIGEST_ALGORITHM_SHA256 ? 1 : a == SA_DIGEST_ALGORITHM_SHA384 ? 2 : 3;
        vp_reach("a digest");
        P(28, m == (const EVP_MD*) &md[i], "C28: the mechanism is the algorithm's");
        P(28, digest_algorithm_from_md(m) == a, "C28: the algorithm of a mechanism is the one it was made for");
        const char* const names[4] = {"sha1", "sha256", "sha384", "sha512"};
        P(28, strcmp(s, names[i]) == 0, "C28: the name is the algorithm's");
        const char* const c1[4] = {"SHA1", "SHA256", "SHA384", "SHA512"};
        const char* const c2[4] = {"SHA-1", "SHA2-256", "SHA2-384", "SHA2-512"};
        const char* const c3[4] = {"SHA-1", "SHA-256", "SHA-384", "SHA-512"};
        P(28, digest_algorithm_from_name(c1[i]) == a && digest_algorithm_from_name(c2[i]) == a && digest_algorithm_from_name(c3[i]) == a,
                "C28: every customary name of a digest names it");
    }
    any_nid = nd_int();
    sa_digest_algorithm b = digest_algorithm_from_md((const EVP_MD*) &any_nid);
    sa_digest_algorithm w = any_nid == NID_sha1 ? SA_DIGEST_ALGORITHM_SHA1 : any_nid == NID_sha256 ? SA_DIGEST_ALGORITHM_SHA256 :
        any_nid == NID_sha384 ? SA_DIGEST_ALGORITHM_SHA384 : any_nid == NID_sha512 ? SA_DIGEST_ALGORITHM_SHA512 : UINT32_MAX;
    P(28, b == w && digest_algorithm_from_md(NULL) == UINT32_MAX, "C28: other mechanisms are no digest algorithm");
    /* no other text of up to 8 characters names a digest, except with one as its prefix */
    char t[10];
    nd_bytes(t, 8);
    t[8] = t[9] = 0;
    sa_digest_algorithm f = digest_algorithm_from_name(t);
    bool pfx = strncmp(t, "SHA", 3) == 0;
    P(28, f == UINT32_MAX || pfx, "C28: a text that does not start with SHA names no digest");
    P(28, f != SA_DIGEST_ALGORITHM_SHA256 || has(t, "25"), "C28: only a text with 256 names SHA-256");
    P(28, f != SA_DIGEST_ALGORITHM_SHA384 || has(t, "38"), "C28: only a text with 384 names SHA-384");
    P(28, f != SA_DIGEST_ALGORITHM_SHA512 || has(t, "51"), "C28: only a text with 512 names SHA-512");
    sa_rights r;
    ND_OBJ(r);
    sa_rights_set_allow_all(&r);
    uint64_t all = (1ULL << SA_USAGE_FLAG_KEY_EXCHANGE) | (1ULL << SA_USAGE_FLAG_DERIVE) | (1ULL << SA_USAGE_FLAG_UNWRAP) | (1ULL << SA_USAGE_FLAG_ENCRYPT) |
        (1ULL << SA_USAGE_FLAG_DECRYPT) | (1ULL << SA_USAGE_FLAG_SIGN) | (1ULL << SA_USAGE_FLAG_CACHEABLE) | (1ULL << SA_USAGE_FLAG_SVP_OPTIONAL) |
        (1ULL << SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED) | (1ULL << SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA) | (1ULL << SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED) |
        (1ULL << SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14) | (1ULL << SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22) | (1ULL << SA_USAGE_FLAG_ALLOWED_DIGITAL_DTCP);
    P(28, r.usage_flags == all && r.child_usage_flags == 0, "C28: the helper grants every usage right and no child right");
    P(28, r.not_before == 0 && r.not_on_or_after == UINT64_MAX, "C28: the helper sets no time limit");
    for (int i = 0; i < MAX_NUM_ALLOWED_TA_IDS; i++)
        for (int j = 0; j < 16; j++)
            P(28, r.allowed_tas[i].id[j] == (i == 0 ? 0xff : 0), "C28: the helper allows every TA by one wildcard entry");
    for (int i = 0; i < sizeof r.id; i++)
        P(28, r.id[i] == 0, "C28: the helper leaves the key's name empty");
}
#endif
