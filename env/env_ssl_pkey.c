/* Contract model of the OpenSSL digest, MAC, public-key and big-number API used by the trusted application.
 * Every object is really allocated (so use-after-free, double free and leaks are visible), every call may fail
 * when vp_fault_ssl is set, produced bytes are arbitrary and lengths follow the OpenSSL documentation. */
#include "env.h"
#include "pkcs8.h"
#include <openssl/core_names.h>
#include <openssl/dh.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <stdlib.h>

int vp_pkey_bits = 256;       /* modulus / field size of every private key in the harness */
int vp_pkey_nid = 415;        /* named curve of every private key in the harness */
int vp_peer_id_any;           /* public keys parsed from input have an arbitrary type */
int vp_pub_len = 32;          /* length of an encoded public key */
size_t vp_pkcs8_len = 16;     /* length of an encoded private key */
bool vp_pkcs8_bad;            /* private keys presented by the caller may be malformed */
unsigned vp_ev_mac_init, vp_ev_mac_update, vp_ev_mac_final, vp_ev_pkey_sign, vp_ev_pkey_derive, vp_ev_pkey_decrypt;
unsigned vp_ev_digest_update, vp_ev_digest_final;
const void* vp_mac_key_seen;
size_t vp_mac_key_len_seen;

#define FAULT() vp_fails(vp_fault_ssl)
static void* obj(size_t n) {
    if (vp_fails(vp_fault_ssl))
        return NULL;
    vp_live_ssl++;
    return malloc(n);
}
static void unobj(void* p) {
    if (p != NULL)
        vp_live_ssl--;
    free(p);
}
/* the callee reads in[0..n) */
static void reads(const void* in, size_t n) {
    if (n > 0) {
        volatile unsigned char t = ((const unsigned char*) in)[0];
        t = ((const unsigned char*) in)[n - 1];
        (void) t;
    }
}

/* ---- digests */
struct evp_md_st { int size, type; };
static const struct evp_md_st M1 = {20, NID_sha1}, M256 = {32, NID_sha256}, M384 = {48, NID_sha384}, M512 = {64, NID_sha512};
const EVP_MD* EVP_sha1(void) { return &M1; }
const EVP_MD* EVP_sha256(void) { return &M256; }
const EVP_MD* EVP_sha384(void) { return &M384; }
const EVP_MD* EVP_sha512(void) { return &M512; }
int EVP_MD_get_type(const EVP_MD* md) { return md->type; }
struct evp_md_ctx_st { const EVP_MD* md; EVP_PKEY* pkey; EVP_PKEY_CTX* pctx; int started; };
EVP_MD_CTX* EVP_MD_CTX_new(void) {
    EVP_MD_CTX* c = obj(sizeof(*c));
    if (c) {
        c->md = NULL;
        c->pkey = NULL;
        c->pctx = NULL;
        c->started = 0;
    }
    return c;
}
struct evp_pkey_st { int id, bits, nid; };
struct evp_pkey_ctx_st { EVP_PKEY* pkey; int id, op; void* label; };
void EVP_MD_CTX_free(EVP_MD_CTX* c) {
    if (c != NULL && c->pctx != NULL)
        free(c->pctx);
    unobj(c);
}
int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* md, ENGINE* e) {
    if (md == NULL || FAULT())
        return 0;
    c->md = md;
    c->started = 1;
    return 1;
}
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) {
    vp_env_assert(c->started == 1, "digest update: initialised");
    if (FAULT())
        return 0;
    reads(d, n);
    vp_ev_digest_update++;
    return 1;
}
int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* out, unsigned int* s) {
    vp_env_assert(c->started == 1, "digest final: initialised");
    if (FAULT())
        return 0;
    vp_output(out, (size_t) c->md->size);
    if (s)
        *s = (unsigned) c->md->size;
    c->started = 0;
    vp_ev_digest_final++;
    return 1;
}

/* ---- MACs */
struct evp_mac_st { int cmac; };
struct evp_mac_ctx_st { int cmac, size, keyed; };
EVP_MAC* EVP_MAC_fetch(OSSL_LIB_CTX* l, const char* name, const char* p) {
    EVP_MAC* m = obj(sizeof(*m));
    if (m)
        m->cmac = name[0] == 'C' || name[0] == 'c';
    return m;
}
void EVP_MAC_free(EVP_MAC* m) { unobj(m); }
EVP_MAC_CTX* EVP_MAC_CTX_new(EVP_MAC* m) {
    if (m == NULL)
        return NULL;
    EVP_MAC_CTX* c = obj(sizeof(*c));
    if (c) {
        c->cmac = m->cmac;
        c->size = 0;
        c->keyed = 0;
    }
    return c;
}
void EVP_MAC_CTX_free(EVP_MAC_CTX* c) { unobj(c); }
OSSL_PARAM OSSL_PARAM_construct_utf8_string(const char* key, char* buf, size_t n) {
    OSSL_PARAM p = {key, OSSL_PARAM_UTF8_STRING, buf, n, OSSL_PARAM_UNMODIFIED};
    return p;
}
OSSL_PARAM OSSL_PARAM_construct_BN(const char* key, unsigned char* buf, size_t n) {
    reads(buf, n);
    OSSL_PARAM p = {key, OSSL_PARAM_UNSIGNED_INTEGER, buf, n, OSSL_PARAM_UNMODIFIED};
    return p;
}
OSSL_PARAM OSSL_PARAM_construct_end(void) {
    OSSL_PARAM p = {NULL, 0, NULL, 0, 0};
    return p;
}
int EVP_MAC_init(EVP_MAC_CTX* c, const unsigned char* key, size_t n, const OSSL_PARAM params[]) {
    if (FAULT())
        return 0;
    vp_env_assert(key != NULL, "MAC init: key given");
    reads(key, n);
    vp_mac_key_seen = key;
    vp_mac_key_len_seen = n;
    const char* d = params[0].data;
    if (c->cmac)
        c->size = 16;
    else if (d == NULL)
        return 0;
    else {
        /* "SHA1" "SHA256" "SHA384" "SHA512", with or without a dash */
        int k = d[3] == '-' ? 4 : 3;
        c->size = d[k] == '1' ? 20 : d[k] == '2' ? 32 : d[k] == '3' ? 48 : 64;
    }
    c->keyed = 1;
    vp_ev_mac_init++;
    return 1;
}
int EVP_MAC_update(EVP_MAC_CTX* c, const unsigned char* d, size_t n) {
    vp_env_assert(c->keyed == 1, "MAC update: keyed and not finished");
    if (FAULT())
        return 0;
    reads(d, n);
    vp_ev_mac_update++;
    return 1;
}
int EVP_MAC_final(EVP_MAC_CTX* c, unsigned char* out, size_t* outl, size_t outsize) {
    vp_env_assert(c->keyed == 1, "MAC final: keyed and not finished");
    if (out == NULL) {
        *outl = (size_t) c->size;
        return 1;
    }
    if (FAULT())
        return 0;
    if (outsize < (size_t) c->size)
        return 0;
    vp_output(out, (size_t) c->size);
    *outl = (size_t) c->size;
    c->keyed = 2;
    vp_ev_mac_final++;
    return 1;
}

/* ---- keys */
static EVP_PKEY* pkey(int id, int bits, int nid) {
    EVP_PKEY* k = obj(sizeof(*k));
    if (k) {
        k->id = id;
        k->bits = bits;
        k->nid = nid;
    }
    return k;
}
void EVP_PKEY_free(EVP_PKEY* k) { unobj(k); }
int EVP_PKEY_get_id(const EVP_PKEY* k) { return k->id; }
int EVP_PKEY_get_bits(const EVP_PKEY* k) { return k->bits; }
#ifndef VP_REAL_PKCS8
EVP_PKEY* evp_pkey_from_pkcs8(int type, const void* in, size_t n) {
    reads(in, n);
    if (vp_pkcs8_bad && nd_bool())
        return NULL;
    return pkey(type, vp_pkey_bits, vp_pkey_nid);
}
bool evp_pkey_to_pkcs8(void* out, size_t* out_length, EVP_PKEY* k) {
    if (out_length == NULL || k == NULL)
        return false;
    if (FAULT())
        return false;
    if (out == NULL) {
        *out_length = vp_pkcs8_len;
        return true;
    }
    if (*out_length < vp_pkcs8_len)
        return false;
    vp_output(out, vp_pkcs8_len);
    *out_length = vp_pkcs8_len;
    return true;
}
#endif
int EVP_PKEY_get_bn_param(const EVP_PKEY* k, const char* name, BIGNUM** bn);
int EVP_PKEY_get_utf8_string_param(const EVP_PKEY* k, const char* name, char* str, size_t max, size_t* out) {
    if (FAULT())
        return 0;
    const char* s = k->nid == NID_X9_62_prime192v1 ? "prime192v1" : k->nid == NID_secp224r1 ? "secp224r1" : k->nid == NID_X9_62_prime256v1 ? "prime256v1" :
                    k->nid == NID_secp384r1 ? "secp384r1" : k->nid == NID_secp521r1 ? "secp521r1" : "other";
    size_t i = 0;
    for (; i < 11 && i + 1 < max && s[i] != 0; i++)
        str[i] = s[i];
    str[i] = 0;
    if (out)
        *out = i;
    return 1;
}
int i2d_PUBKEY(const EVP_PKEY* k, unsigned char** pp) {
    if (FAULT())
        return -1;
    if (pp != NULL && *pp != NULL) {
        vp_output(*pp, (size_t) vp_pub_len);
        *pp += vp_pub_len;
    }
    return vp_pub_len;
}
EVP_PKEY* d2i_PUBKEY(EVP_PKEY** a, const unsigned char** pp, long n) {
    if (n <= 0)
        return NULL;
    reads(*pp, (size_t) n);
    if (nd_bool())
        return NULL;
    return pkey(vp_peer_id_any ? (int) nd_u16() : EVP_PKEY_EC, vp_pkey_bits, vp_pkey_nid);
}
EVP_PKEY_CTX* EVP_PKEY_CTX_new(EVP_PKEY* k, ENGINE* e) {
    if (k == NULL)
        return NULL;
    EVP_PKEY_CTX* c = obj(sizeof(*c));
    if (c) {
        c->pkey = k;
        c->id = k->id;
        c->op = 0;
        c->label = NULL;
    }
    return c;
}
EVP_PKEY_CTX* EVP_PKEY_CTX_new_id(int id, ENGINE* e) {
    EVP_PKEY_CTX* c = obj(sizeof(*c));
    if (c) {
        c->pkey = NULL;
        c->id = id;
        c->op = 0;
        c->label = NULL;
    }
    return c;
}
extern void memory_secure_free(void* p);
void EVP_PKEY_CTX_free(EVP_PKEY_CTX* c) {
    if (c != NULL && c->label != NULL)
        memory_secure_free(c->label);
    unobj(c);
}
#define PK_INIT(fn, code) \
    int fn(EVP_PKEY_CTX* c) { \
        if (c == NULL || FAULT()) \
            return c == NULL ? -2 : 0; \
        c->op = code; \
        return 1; \
    }
PK_INIT(EVP_PKEY_sign_init, 1)
PK_INIT(EVP_PKEY_decrypt_init, 2)
PK_INIT(EVP_PKEY_derive_init, 3)
PK_INIT(EVP_PKEY_keygen_init, 4)
PK_INIT(EVP_PKEY_paramgen_init, 5)
PK_INIT(EVP_PKEY_fromdata_init, 6)
#define PK_SET(fn, type) \
    int fn(EVP_PKEY_CTX* c, type v) { \
        if (c == NULL || FAULT()) \
            return -2; \
        vp_env_assert(c->op != 0, #fn ": operation initialised"); \
        return 1; \
    }
PK_SET(EVP_PKEY_CTX_set_rsa_padding, int)
PK_SET(EVP_PKEY_CTX_set_rsa_oaep_md, const EVP_MD*)
PK_SET(EVP_PKEY_CTX_set_rsa_mgf1_md, const EVP_MD*)
PK_SET(EVP_PKEY_CTX_set_rsa_pss_saltlen, int)
PK_SET(EVP_PKEY_CTX_set_rsa_keygen_bits, int)
PK_SET(EVP_PKEY_CTX_set_signature_md, const EVP_MD*)
PK_SET(EVP_PKEY_CTX_set_dh_pad, int)
PK_SET(EVP_PKEY_CTX_set_ec_param_enc, int)
PK_SET(EVP_PKEY_CTX_set_ec_paramgen_curve_nid, int)
int EVP_PKEY_CTX_set0_rsa_oaep_label(EVP_PKEY_CTX* c, void* label, int n) {
    if (c == NULL || FAULT())
        return -2;
    c->label = label;
    return 1;
}
int EVP_PKEY_derive_set_peer(EVP_PKEY_CTX* c, EVP_PKEY* peer) {
    vp_env_assert(c->op == 3 && peer != NULL, "derive: initialised");
    if (nd_bool())
        return 0; /* the peer key may be invalid */
    return 1;
}
static int pk_out(EVP_PKEY_CTX* c, unsigned char* out, size_t* outl, bool shorter) {
    size_t full = (size_t) c->pkey->bits / 8;
    if (out == NULL) {
        if (FAULT())
            return 0;
        *outl = full;
        return 1;
    }
    if (FAULT())
        return 0;
    if (*outl < full)
        return 0;
    size_t n = full;
    if (shorter)
        n = nd_size(full);
    if (n > 0)
        vp_output(out, n);
    *outl = n;
    return 1;
}
int EVP_PKEY_sign(EVP_PKEY_CTX* c, unsigned char* sig, size_t* n, const unsigned char* tbs, size_t tl) {
    vp_env_assert(c->op == 1, "sign: initialised");
    reads(tbs, tl);
    if (nd_bool())
        return 0; /* the digest may have the wrong length */
    vp_ev_pkey_sign++;
    return pk_out(c, sig, n, false);
}
int EVP_PKEY_decrypt(EVP_PKEY_CTX* c, unsigned char* out, size_t* n, const unsigned char* in, size_t inl) {
    vp_env_assert(c->op == 2, "decrypt: initialised");
    reads(in, inl);
    if (out != NULL && nd_bool())
        return 0; /* the ciphertext may be invalid */
    vp_ev_pkey_decrypt++;
    return pk_out(c, out, n, true);
}
int EVP_PKEY_derive(EVP_PKEY_CTX* c, unsigned char* out, size_t* n) {
    vp_env_assert(c->op == 3, "derive: initialised");
    vp_ev_pkey_derive++;
    return pk_out(c, out, n, false);
}
static int gen(EVP_PKEY_CTX* c, EVP_PKEY** k) {
    EVP_PKEY* n = pkey(c->id, vp_pkey_bits, vp_pkey_nid);
    if (n == NULL)
        return 0;
    *k = n;
    return 1;
}
int EVP_PKEY_keygen(EVP_PKEY_CTX* c, EVP_PKEY** k) {
    vp_env_assert(c->op == 4, "keygen: initialised");
    return gen(c, k);
}
int EVP_PKEY_generate(EVP_PKEY_CTX* c, EVP_PKEY** k) {
    vp_env_assert(c->op == 4, "keygen: initialised");
    if (nd_bool())
        return 0; /* DH parameters may be invalid */
    return gen(c, k);
}
int EVP_PKEY_paramgen(EVP_PKEY_CTX* c, EVP_PKEY** k) {
    vp_env_assert(c->op == 5, "paramgen: initialised");
    return gen(c, k);
}
int EVP_PKEY_fromdata(EVP_PKEY_CTX* c, EVP_PKEY** k, int sel, OSSL_PARAM params[]) {
    vp_env_assert(c->op == 6, "fromdata: initialised");
    if (nd_bool())
        return 0;
    return gen(c, k);
}

/* ---- DigestSign */
int EVP_DigestSignInit(EVP_MD_CTX* c, EVP_PKEY_CTX** pctx, const EVP_MD* md, ENGINE* e, EVP_PKEY* k) {
    if (k == NULL || FAULT())
        return 0;
    c->md = md;
    c->pkey = k;
    c->started = 2;
    if (pctx != NULL) {
        c->pctx = malloc(sizeof(EVP_PKEY_CTX));
        c->pctx->pkey = k;
        c->pctx->op = 1;
        c->pctx->label = NULL;
        *pctx = c->pctx;
    }
    return 1;
}
int EVP_DigestSignUpdate(EVP_MD_CTX* c, const void* d, size_t n) {
    vp_env_assert(c->started == 2, "DigestSign update: initialised");
    if (FAULT())
        return 0;
    reads(d, n);
    return 1;
}
static int ds_final(EVP_MD_CTX* c, unsigned char* sig, size_t* n) {
    vp_env_assert(c->started == 2, "DigestSign final: initialised");
    size_t full = c->pkey->id == EVP_PKEY_ED25519 ? 64 : c->pkey->id == EVP_PKEY_ED448 ? 114 : (size_t) c->pkey->bits / 8;
    if (FAULT())
        return 0;
    if (sig == NULL) {
        *n = full;
        return 1;
    }
    if (*n < full)
        return 0;
    vp_output(sig, full);
    *n = full;
    vp_ev_pkey_sign++;
    return 1;
}
int EVP_DigestSignFinal(EVP_MD_CTX* c, unsigned char* sig, size_t* n) { return ds_final(c, sig, n); }
int EVP_DigestSign(EVP_MD_CTX* c, unsigned char* sig, size_t* n, const unsigned char* d, size_t dl) {
    reads(d, dl);
    return ds_final(c, sig, n);
}

/* ---- big numbers, EC */
struct bignum_st { int bits; };
BIGNUM* vp_bn(void) {
    BIGNUM* b = obj(sizeof(*b));
    if (b)
        b->bits = (int) nd_size((size_t) vp_pkey_bits);
    return b;
}
void BN_free(BIGNUM* b) { unobj(b); }
int BN_num_bits(const BIGNUM* b) { return b->bits; }
int BN_bn2bin(const BIGNUM* b, unsigned char* to) {
    int n = (b->bits + 7) / 8;
    if (n > 0)
        vp_output(to, (size_t) n);
    return n;
}
int EVP_PKEY_get_bn_param(const EVP_PKEY* k, const char* name, BIGNUM** bn) {
    BIGNUM* b = vp_bn();
    if (b == NULL)
        return 0;
    *bn = b;
    return 1;
}
struct ECDSA_SIG_st { BIGNUM r, s; };
ECDSA_SIG* d2i_ECDSA_SIG(ECDSA_SIG** a, const unsigned char** pp, long n) {
    if (n <= 0)
        return NULL;
    reads(*pp, (size_t) n);
    ECDSA_SIG* s = obj(sizeof(*s));
    if (s) {
        s->r.bits = (int) nd_size((size_t) vp_pkey_bits);
        s->s.bits = (int) nd_size((size_t) vp_pkey_bits);
    }
    return s;
}
void ECDSA_SIG_free(ECDSA_SIG* s) { unobj(s); }
void ECDSA_SIG_get0(const ECDSA_SIG* s, const BIGNUM** r, const BIGNUM** sg) {
    *r = &s->r;
    *sg = &s->s;
}
struct ec_group_st { int degree; };
struct ec_point_st { int x; };
EC_GROUP* EC_GROUP_new_by_curve_name(int nid) {
    EC_GROUP* g = obj(sizeof(*g));
    if (g)
        g->degree = nid == NID_X9_62_prime192v1 ? 192 : nid == NID_secp224r1 ? 224 : nid == NID_X9_62_prime256v1 ? 256 : nid == NID_secp384r1 ? 384 : 521;
    return g;
}
void EC_GROUP_free(EC_GROUP* g) { unobj(g); }
int EC_GROUP_get_degree(const EC_GROUP* g) { return g->degree; }
EC_POINT* EC_POINT_new(const EC_GROUP* g) { return g == NULL ? NULL : obj(sizeof(EC_POINT)); }
void EC_POINT_free(EC_POINT* p) { unobj(p); }
int EC_POINT_add(const EC_GROUP* g, EC_POINT* r, const EC_POINT* a, const EC_POINT* b, BN_CTX* c) { return !FAULT(); }
int EC_POINT_invert(const EC_GROUP* g, EC_POINT* a, BN_CTX* c) { return !FAULT(); }
int EC_POINT_mul(const EC_GROUP* g, EC_POINT* r, const BIGNUM* n, const EC_POINT* q, const BIGNUM* m, BN_CTX* c) { return !FAULT(); }
int EC_POINT_oct2point(const EC_GROUP* g, EC_POINT* p, const unsigned char* b, size_t n, BN_CTX* c) {
    reads(b, n);
    return nd_bool();
}
size_t EC_POINT_point2oct(const EC_GROUP* g, const EC_POINT* p, point_conversion_form_t form, unsigned char* b, size_t n, BN_CTX* c) {
    size_t full = (size_t) ((g->degree + 7) / 8) * 2 + 1;
    if (FAULT())
        return 0;
    if (b == NULL)
        return full;
    if (n < full)
        return 0;
    vp_output(b, full);
    b[0] = 4;
    return full;
}
