/* Model of the OpenSSL symmetric cipher API: length behaviour of EVP_{En,De}cryptUpdate/Final follows the
 * OpenSSL documentation (buffering, held-back block when padding is on); produced bytes are arbitrary. */
#include "env.h"
#include <openssl/evp.h>
#include <stdlib.h>

long vp_live_ssl;
unsigned vp_ev_cipher_init, vp_ev_cipher_update, vp_ev_cipher_final;

struct evp_cipher_st { int key_len, block, aead, nid; };
static const struct evp_cipher_st C_128_ECB = {16, 16, 0, 1}, C_256_ECB = {32, 16, 0, 1}, C_128_CBC = {16, 16, 0, 2},
                                  C_256_CBC = {32, 16, 0, 2}, C_128_CTR = {16, 1, 0, 3}, C_256_CTR = {32, 1, 0, 3},
                                  C_128_GCM = {16, 1, 1, 4}, C_256_GCM = {32, 1, 1, 4}, C_CHACHA = {32, 1, 0, 5},
                                  C_CHACHAPOLY = {32, 1, 1, 6};
const EVP_CIPHER* EVP_aes_128_ecb(void) { return &C_128_ECB; }
const EVP_CIPHER* EVP_aes_256_ecb(void) { return &C_256_ECB; }
const EVP_CIPHER* EVP_aes_128_cbc(void) { return &C_128_CBC; }
const EVP_CIPHER* EVP_aes_256_cbc(void) { return &C_256_CBC; }
const EVP_CIPHER* EVP_aes_128_ctr(void) { return &C_128_CTR; }
const EVP_CIPHER* EVP_aes_256_ctr(void) { return &C_256_CTR; }
const EVP_CIPHER* EVP_aes_128_gcm(void) { return &C_128_GCM; }
const EVP_CIPHER* EVP_aes_256_gcm(void) { return &C_256_GCM; }
const EVP_CIPHER* EVP_chacha20(void) { return &C_CHACHA; }
const EVP_CIPHER* EVP_chacha20_poly1305(void) { return &C_CHACHAPOLY; }

struct evp_cipher_ctx_st {
    const EVP_CIPHER* cipher;
    int enc, keyed, pad, finished;
    int held;
};

#define FAULT() vp_fails(vp_fault_ssl)

EVP_CIPHER_CTX* EVP_CIPHER_CTX_new(void) {
    if (vp_fails(vp_fault_ssl))
        return NULL;
    EVP_CIPHER_CTX* c = malloc(sizeof(*c));
    c->cipher = NULL;
    c->enc = c->keyed = c->held = c->finished = 0;
    c->pad = 1;
    vp_live_ssl++;
    return c;
}
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) {
    if (c != NULL)
        vp_live_ssl--;
    free(c);
}
static int cipher_init(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, const unsigned char* key, const unsigned char* iv, int enc) {
    if (cipher != NULL)
        c->cipher = cipher;
    vp_env_assert(c->cipher != NULL, "EVP init: a cipher has been selected");
    if (FAULT())
        return 0;
    if (key != NULL) {
        /* reads the whole key and IV */
        volatile unsigned char t = key[c->cipher->key_len - 1];
        (void) t;
        c->keyed = 1;
        vp_ev_cipher_init++;
    }
    if (iv != NULL) {
        volatile unsigned char t = iv[c->cipher->aead ? 11 : 15];
        (void) t;
    }
    c->enc = enc;
    c->held = 0;
    c->finished = 0;
    return 1;
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, ENGINE* e, const unsigned char* key, const unsigned char* iv) {
    return cipher_init(c, cipher, key, iv, 1);
}
int EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, ENGINE* e, const unsigned char* key, const unsigned char* iv) {
    return cipher_init(c, cipher, key, iv, 0);
}
int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX* c, int pad) {
    if (FAULT())
        return 0;
    c->pad = pad != 0;
    return 1;
}
int EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* c, int type, int arg, void* ptr) {
    if (FAULT())
        return 0;
    if (type == EVP_CTRL_AEAD_GET_TAG)
        vp_output(ptr, (size_t) arg);
    else if (type == EVP_CTRL_AEAD_SET_TAG && ptr != NULL && arg > 0) {
        volatile unsigned char t = ((unsigned char*) ptr)[arg - 1];
        (void) t;
    }
    return 1;
}
static int cipher_update(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl, int enc) {
    vp_env_assert(c->cipher != NULL && c->keyed, "EVP update: the context has a key");
    if (FAULT())
        return 0;
    if (inl < 0)
        return 0;
    if (inl > 0) {
        volatile unsigned char t = in[0];
        t = in[inl - 1];
        (void) t;
    }
    int n;
    if (out == NULL) {
        *outl = inl;
        return 1;
    }
    if (c->cipher->block == 1)
        n = inl;
    else {
        int total = c->held + inl;
        int keep = total % 16;
        if (!enc && c->pad && keep == 0 && total > 0)
            keep = 16;
        n = total - keep;
        c->held = keep;
    }
    vp_ev_cipher_update++;
    if (n > 0)
        vp_output(out, (size_t) n);
    *outl = n;
    return 1;
}
int EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl) {
    return cipher_update(c, out, outl, in, inl, 1);
}
int EVP_DecryptUpdate(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, const unsigned char* in, int inl) {
    return cipher_update(c, out, outl, in, inl, 0);
}
static int cipher_final(EVP_CIPHER_CTX* c, unsigned char* out, int* outl, int enc) {
    vp_env_assert(c->cipher != NULL && c->keyed, "EVP final: the context has a key");
    vp_ev_cipher_final++;
    *outl = 0;
    if (FAULT())
        return 0;
    if (c->cipher->block == 1) {
        if (c->cipher->aead && !enc)
            return nd_bool(); /* the tag may or may not verify */
        return 1;
    }
    if (!c->pad)
        return c->held == 0;
    if (enc) {
        vp_havoc(out, 16);
        *outl = 16;
        return 1;
    }
    if (c->held != 16)
        return 0;
    int n = (int) nd_size(16); /* 16: bad padding */
    if (n == 16)
        return 0;
    if (n > 0)
        vp_output(out, (size_t) n);
    *outl = n;
    return 1;
}
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* out, int* outl) { return cipher_final(c, out, outl, 1); }
int EVP_EncryptFinal(EVP_CIPHER_CTX* c, unsigned char* out, int* outl) { return cipher_final(c, out, outl, 1); }
int EVP_DecryptFinal_ex(EVP_CIPHER_CTX* c, unsigned char* out, int* outl) { return cipher_final(c, out, outl, 0); }
int EVP_DecryptFinal(EVP_CIPHER_CTX* c, unsigned char* out, int* outl) { return cipher_final(c, out, outl, 0); }
