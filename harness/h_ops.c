/* Key operations at the trusted application's API, one operation per build (OP). */
#include "session.h"
#include "svp_store.h"
#include <stdlib.h>
#ifndef SAME
#define SAME 1
#endif
#ifndef TYPES
#define TYPES 15
#endif
#ifndef ALG
#define ALG nd_u32()
#endif
#ifndef CAPMAX
#define CAPMAX 80
#endif

/* the handle the caller presents: the key's, or any other value */
static sa_key vp_handle(const vp_key_t* k) {
    return SAME ? k->handle : (sa_key) nd_u64();
}
static ta_client vp_cslot(void) { return SAME ? vp_slot : (ta_client) nd_u64(); }

/* some key types can never succeed at an operation: the success branch must then be unreachable */
#ifdef NEVER
#define OK_REACH(msg) P(1, false, "C01: this key type never succeeds at this operation")
#else
#define OK_REACH(msg) vp_reach(msg)
#endif
#define OPT(p) (nd_bool() ? NULL : (p))

void HARNESS(void) {
    vp_begin(SAME);
    vp_key_t k;
    vp_any_key(&k, TYPES);
    sa_key h = vp_handle(&k);
#ifdef SECOND /* the second key of a two-key operation */
    vp_key_t k2;
    vp_any_sym(&k2, SECOND);
    sa_key h2 = vp_handle(&k2);
    if (!SAME)
        vp_other = &k2;
#else
#define k2 k
    sa_key h2 = h;
#endif
    ta_client c = vp_cslot();
    vp_faults(FAULTS);
    sa_status st;
    int created = 0;

#if OP == 1 /* sign */
    size_t in_len, cap = nd_size(CAPMAX);
    uint8_t* in = vp_buf(40, &in_len);
    uint8_t* out = OPT(vp_buf_at(CAPMAX, cap));
    size_t out_len = cap;
    uint8_t first = out && cap ? out[0] : 0;
    sa_signature_algorithm alg = nd_u32();
    union { sa_sign_parameters_rsa_pss pss; sa_sign_parameters_rsa_pkcs1v15 p1; sa_sign_parameters_ecdsa ec; } p;
    p.pss.digest_algorithm = nd_u32();
    p.pss.mgf1_digest_algorithm = nd_u32();
    p.pss.precomputed_digest = nd_bool();
    p.pss.salt_length = nd_u64();
    if (alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 || alg == SA_SIGNATURE_ALGORITHM_ECDSA)
        p.ec.precomputed_digest = nd_bool();
    void* a0 = OPT((void*) in);
    void* a1 = OPT((void*) &p);
    st = ta_sa_crypto_sign(out, &out_len, alg, h, a0, in_len, a1, c, &vp_who);
    if (st == SA_STATUS_OK) {
        if (out) OK_REACH("signed");
        vp_check_use(&k, h, SA_USAGE_FLAG_SIGN);
        P(1, k.type == (alg == SA_SIGNATURE_ALGORITHM_RSA_PSS || alg == SA_SIGNATURE_ALGORITHM_RSA_PKCS1V15 ? SA_KEY_TYPE_RSA : SA_KEY_TYPE_EC),
                "C01: the key type supports the signature algorithm");
        P(23, out == NULL || out_len <= cap, "C23: the returned length is within the capacity");
        P(11, out == NULL || vp_ev_pkey_sign > 0, "C11: success means a signature was produced");
    } else if (!FLAG(k.rights, SA_USAGE_FLAG_SIGN)) {
        P(1, vp_ev_pkey_sign == 0, "C01: a refused operation does not sign");
        if (out && cap)
            P(1, out[0] == first, "C01: a refused operation writes no output");
    }
#elif OP == 2 /* mac init */
    sa_crypto_mac_context ctx = nd_u64();
    sa_mac_algorithm alg = nd_u32();
    sa_mac_parameters_hmac p;
    p.digest_algorithm = nd_u32();
    void* a0 = OPT((void*) &p);
    st = ta_sa_crypto_mac_init(&ctx, alg, h, a0, c, &vp_who);
    created = 1;
    if (st == SA_STATUS_OK) {
        OK_REACH("mac context");
        vp_check_use(&k, h, SA_USAGE_FLAG_SIGN);
        P(1, k.type == SA_KEY_TYPE_SYMMETRIC, "C01: only symmetric keys compute MACs");
        P(1, alg == SA_MAC_ALGORITHM_HMAC || (alg == SA_MAC_ALGORITHM_CMAC && (k.size == 16 || k.size == 32)), "C01: CMAC needs an AES key");
        P(11, vp_ev_mac_init > 0, "C11: success means the MAC was keyed");
    }
    else
        P(1, vp_store_live == vp_base_live, "C01: a refused operation yields no context");
#elif OP == 3 /* cipher init */
    sa_crypto_cipher_context ctx = nd_u64();
    sa_cipher_algorithm alg = ALG;
    sa_cipher_mode mode = nd_u32();
#ifdef ALGS
    vp_assume(ALGS);
#endif
    union { sa_cipher_parameters_aes_cbc cbc; sa_cipher_parameters_aes_ctr ctr; sa_cipher_parameters_aes_gcm gcm; sa_cipher_parameters_chacha20 cha;
            sa_cipher_parameters_chacha20_poly1305 poly; sa_cipher_parameters_rsa_oaep oaep; } p;
    if (alg == SA_CIPHER_ALGORITHM_RSA_OAEP) {
        p.oaep.digest_algorithm = nd_u32();
        p.oaep.mgf1_digest_algorithm = nd_u32();
        p.oaep.label = (vp_optbuf(20, &p.oaep.label_length));
    } else {
        p.gcm.iv = (vp_optbuf(20, &p.gcm.iv_length));
        p.gcm.aad = (vp_optbuf(20, &p.gcm.aad_length));
    }
    void* a0 = OPT((void*) &p);
    st = ta_sa_crypto_cipher_init(&ctx, alg, mode, h, a0, c, &vp_who);
    created = 1;
    if (st == SA_STATUS_OK) {
        OK_REACH("cipher context");
        vp_check_use(&k, h, mode == SA_CIPHER_MODE_ENCRYPT ? SA_USAGE_FLAG_ENCRYPT : SA_USAGE_FLAG_DECRYPT);
        P(1, mode == SA_CIPHER_MODE_ENCRYPT || mode == SA_CIPHER_MODE_DECRYPT, "C01: the mode is encrypt or decrypt");
        bool rsa = alg == SA_CIPHER_ALGORITHM_RSA_PKCS1V15 || alg == SA_CIPHER_ALGORITHM_RSA_OAEP, ec = alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL;
        bool cha = alg == SA_CIPHER_ALGORITHM_CHACHA20 || alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
        P(1, k.type == (rsa ? SA_KEY_TYPE_RSA : ec ? SA_KEY_TYPE_EC : SA_KEY_TYPE_SYMMETRIC), "C01: the key type supports the cipher");
        P(1, !(rsa || ec) || mode == SA_CIPHER_MODE_DECRYPT, "C01: public-key ciphers only decrypt");
        P(1, rsa || ec || (cha ? k.size == 32 : k.size == 16 || k.size == 32), "C01: the key size supports the cipher");
        if (!rsa && !ec) {
            P(2, spec_outputs_ok(&k.rights), "C02: every active output is allowed by the key");
            P(11, vp_ev_cipher_init > 0, "C11: success means the cipher was keyed");
            if (alg == SA_CIPHER_ALGORITHM_AES_CBC || alg == SA_CIPHER_ALGORITHM_AES_CTR || alg == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 || cha)
                P(8, p.cbc.iv_length == (alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305 ? 12 : alg == SA_CIPHER_ALGORITHM_CHACHA20 ? 4 : 16), "C08: the IV has the length of the algorithm");
        }
    }
    else {
        P(1, vp_store_live == vp_base_live, "C01: a refused operation yields no context");
        P(6, ctx == INVALID_HANDLE || vp_store_live == vp_base_live, "C06: no context is left behind");
    }
#elif OP == 4 /* get public */
    size_t cap = nd_size(CAPMAX), out_len = cap;
    uint8_t* out = OPT(vp_buf_at(CAPMAX, cap));
    vp_pub_len = (int) nd_size(48);
    vp_assume(vp_pub_len > 0);
    st = ta_sa_key_get_public(out, &out_len, h, c, &vp_who);
    if (st == SA_STATUS_OK) {
        if (out) OK_REACH("public key");
        vp_check_use(&k, h, -1);
        P(23, out_len == (size_t) vp_pub_len, "C23: the returned length is the number of bytes produced");
        P(23, out == NULL || out_len <= cap, "C23: the returned length is within the capacity");
        P(1, k.type != SA_KEY_TYPE_SYMMETRIC, "C01: a symmetric key has no public key");
    }
#elif OP == 5 /* digest */
    size_t cap = nd_size(CAPMAX), out_len = cap;
    uint8_t* out = OPT(vp_buf_at(CAPMAX, cap));
    sa_digest_algorithm alg = nd_u32();
    st = ta_sa_key_digest(out, &out_len, h, alg, c, &vp_who);
    if (st == SA_STATUS_OK) {
        if (out) OK_REACH("digest");
        vp_check_use(&k, h, -1);
        size_t want = alg == SA_DIGEST_ALGORITHM_SHA1 ? 20 : alg == SA_DIGEST_ALGORITHM_SHA256 ? 32 : alg == SA_DIGEST_ALGORITHM_SHA384 ? 48 : 64;
        P(23, alg <= SA_DIGEST_ALGORITHM_SHA512 && out_len == want, "C23: the returned length is the digest length");
        P(23, out == NULL || out_len <= cap, "C23: the returned length is within the capacity");
        P(1, k.type == SA_KEY_TYPE_SYMMETRIC, "C01: only symmetric keys have a digest");
        P(11, out == NULL || vp_ev_digest_final > 0, "C11: success means a digest was produced");
    }
#elif OP == 6 /* header */
    sa_header hd;
    void* a0 = OPT((void*) &hd);
    st = ta_sa_key_header(a0, h, c, &vp_who);
    if (st == SA_STATUS_OK) {
        OK_REACH("header");
        P(4, uuid_eq(&vp_who, &vp_owner), "C04: only the owner of the session uses its keys");
        P(4, h == k.handle, "C04: only a live key handle is usable");
        P(21, hd.type == k.type && hd.size == k.size && hd.rights.usage_flags == k.rights.usage_flags &&
                hd.rights.not_before == k.rights.not_before && hd.rights.not_on_or_after == k.rights.not_on_or_after,
                "C21: the header reports the key's true type, size and rights");
    }
#elif OP == 7 /* export */
    size_t cap = nd_size(CAPMAX), out_len = cap, mlen;
    uint8_t* out = OPT(vp_buf_at(CAPMAX, cap));
    uint8_t* mixin = (vp_optbuf(20, &mlen));
    st = ta_sa_key_export(out, &out_len, mixin, mlen, h, c, &vp_who);
    if (st == SA_STATUS_OK) {
        if (out) OK_REACH("exported");
        P(4, uuid_eq(&vp_who, &vp_owner), "C04: only the owner of the session uses its keys");
        P(4, h == k.handle, "C04: only a live key handle is usable");
        P(14, FLAG(k.rights, SA_USAGE_FLAG_CACHEABLE), "C14: only a cacheable key is exported");
        P(23, out == NULL || out_len <= cap, "C23: the returned length is within the capacity");
    }
#elif OP == 8 /* release */
    st = ta_sa_key_release(h, c, &vp_who);
    created = -1;
    if (st == SA_STATUS_OK) {
        OK_REACH("released");
        P(4, uuid_eq(&vp_who, &vp_owner), "C04: only the owner of the session releases its keys");
        P(4, h == k.handle, "C04: only a live key handle is releasable");
    }
#elif OP == 9 /* key derive */
    sa_key nk = nd_u64();
    sa_kdf_algorithm alg = ALG;
#ifdef ALGS
    vp_assume(ALGS);
#endif
    union { sa_kdf_parameters_hkdf hkdf; sa_kdf_parameters_concat concat; sa_kdf_parameters_cmac cmac; sa_kdf_parameters_root_key_ladder ladder; sa_kdf_parameters_netflix nf;
            sa_kdf_parameters_ansi_x963 x963; } p;
    sa_rights cr;
    vp_any_rights(&cr);
    size_t l1, l2;
    uint8_t* b1 = (vp_optbuf(20, &l1));
    uint8_t* b2 = (vp_optbuf(20, &l2));
    size_t klen = nd_u64();
    bool parent = true;
    if (alg == SA_KDF_ALGORITHM_HKDF) {
        p.hkdf.key_length = klen; p.hkdf.digest_algorithm = nd_u32(); p.hkdf.parent = h; p.hkdf.salt = b1; p.hkdf.salt_length = l1; p.hkdf.info = b2; p.hkdf.info_length = l2;
    } else if (alg == SA_KDF_ALGORITHM_CONCAT) {
        p.concat.key_length = klen; p.concat.digest_algorithm = nd_u32(); p.concat.parent = h; p.concat.info = b1; p.concat.info_length = l1;
    } else if (alg == SA_KDF_ALGORITHM_ANSI_X963) {
        p.x963.key_length = klen; p.x963.digest_algorithm = nd_u32(); p.x963.parent = h; p.x963.info = b1; p.x963.info_length = l1;
    } else if (alg == SA_KDF_ALGORITHM_CMAC) {
        p.cmac.key_length = klen; p.cmac.parent = h; p.cmac.other_data = b1; p.cmac.other_data_length = l1; p.cmac.counter = nd_u8();
    } else if (alg == SA_KDF_ALGORITHM_NETFLIX) {
        p.nf.kenc = h; p.nf.khmac = h2;
    } else {
        parent = false;
        p.ladder.c1 = b1; p.ladder.c1_length = l1; p.ladder.c2 = b1; p.ladder.c2_length = l1; p.ladder.c3 = b2; p.ladder.c3_length = l2; p.ladder.c4 = b2; p.ladder.c4_length = l2;
    }
    void* a0 = OPT((void*) &cr);
    void* a1 = OPT((void*) &p);
    st = ta_sa_key_derive(&nk, a0, alg, a1, c, &vp_who);
    created = 1;
    if (st == SA_STATUS_OK) {
        OK_REACH("derived");
        P(4, uuid_eq(&vp_who, &vp_owner), "C04: only the owner of the session creates keys in it");
        if (parent) {
            vp_check_use(&k, h, SA_USAGE_FLAG_DERIVE);
            if (alg == SA_KDF_ALGORITHM_NETFLIX)
                vp_check_use(SAME ? &k2 : &k, h2, SA_USAGE_FLAG_DERIVE);
            P(1, k.type == SA_KEY_TYPE_SYMMETRIC, "C01: only symmetric keys derive");
        }
        vp_check_child(nk, &cr, parent ? &k.rights : NULL, VP_SYM);
    } else
        P(1, vp_store_live == vp_base_live, "C01: a refused operation yields no key");
#elif OP == 10 /* key exchange */
    sa_key nk = nd_u64();
    sa_key_exchange_algorithm alg = nd_u32();
    vp_assume(alg <= SA_KEY_EXCHANGE_ALGORITHM_ECDH || alg > SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH);
    sa_rights cr;
    vp_any_rights(&cr);
    size_t l1;
    uint8_t* b1 = (vp_optbuf(20, &l1));
    vp_peer_id_any = 1;
    void* a0 = OPT((void*) &cr);
    st = ta_sa_key_exchange(&nk, a0, alg, h, b1, l1, NULL, c, &vp_who);
    created = 1;
    if (st == SA_STATUS_OK) {
        OK_REACH("exchanged");
        vp_check_use(&k, h, SA_USAGE_FLAG_KEY_EXCHANGE);
        P(1, k.type == (alg == SA_KEY_EXCHANGE_ALGORITHM_DH ? SA_KEY_TYPE_DH : SA_KEY_TYPE_EC), "C01: the key type supports the exchange");
        P(11, vp_ev_pkey_derive > 0, "C11: success means a secret was computed");
        vp_check_child(nk, &cr, &k.rights, VP_SYM);
    } else
        P(1, vp_store_live == vp_base_live, "C01: a refused operation yields no key");
#elif OP == 12 /* Netflix authenticated DH */
    sa_key nk = nd_u64(), ke = nd_u64(), kh = nd_u64();
    sa_rights cr, re, rh;
    vp_any_rights(&cr);
    vp_any_rights(&re);
    vp_any_rights(&rh);
    size_t l1;
    uint8_t* b1 = (vp_optbuf(20, &l1));
    vp_peer_id_any = 1;
    sa_key_exchange_parameters_netflix_authenticated_dh p;
    p.in_kw = h2;
    p.out_ke = OPT(&ke);
    p.rights_ke = OPT(&re);
    p.out_kh = OPT(&kh);
    p.rights_kh = OPT(&rh);
    void* a0 = OPT((void*) &cr);
    void* a1 = OPT((void*) &p);
    st = ta_sa_key_exchange(&nk, a0, SA_KEY_EXCHANGE_ALGORITHM_NETFLIX_AUTHENTICATED_DH, h, b1, l1, a1, c, &vp_who);
    created = 3;
    if (st == SA_STATUS_OK) {
        OK_REACH("exchanged");
        vp_check_use(&k, h, SA_USAGE_FLAG_KEY_EXCHANGE);
        vp_check_use(SAME ? &k2 : &k, h2, SA_USAGE_FLAG_DERIVE);
        P(1, k.type == SA_KEY_TYPE_DH, "C01: the key type supports the exchange");
        vp_check_child(nk, &cr, &k2.rights, VP_SYM);
        vp_check_child(ke, &re, &k2.rights, VP_SYM);
        vp_check_child(kh, &rh, &k2.rights, VP_SYM);
    } else
        P(1, vp_store_live == vp_base_live, "C01: a refused operation yields no key");
#elif OP == 11 /* unwrap */
    sa_key nk = nd_u64();
    sa_cipher_algorithm alg = ALG;
#ifdef ALGS
    vp_assume(ALGS);
#endif
    sa_key_type kt = nd_u32();
    sa_unwrap_type_parameters_ec tp;
    tp.curve = nd_u32();
    sa_rights cr;
    vp_any_rights(&cr);
    size_t l1;
#ifdef INMAX
    uint8_t* b1 = (vp_optbuf(INMAX, &l1));
#else
    uint8_t* b1 = (vp_optbuf(48, &l1));
#endif
    vp_pkcs8_bad = true;
    union { sa_unwrap_parameters_aes_cbc cbc; sa_unwrap_parameters_aes_gcm gcm; sa_unwrap_parameters_chacha20 cha; sa_unwrap_parameters_chacha20_poly1305 poly;
            sa_unwrap_parameters_rsa_oaep oaep; sa_unwrap_parameters_ec_elgamal elg; } p;
    if (alg == SA_CIPHER_ALGORITHM_RSA_OAEP) {
        p.oaep.digest_algorithm = nd_u32();
        p.oaep.mgf1_digest_algorithm = nd_u32();
        p.oaep.label = (vp_optbuf(20, &p.oaep.label_length));
    } else if (alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL) {
        p.elg.offset = nd_u64();
        p.elg.key_length = nd_u64();
    } else {
        p.gcm.iv = (vp_optbuf(20, &p.gcm.iv_length));
        p.gcm.aad = (vp_optbuf(20, &p.gcm.aad_length));
        p.gcm.tag = (vp_optbuf(20, &p.gcm.tag_length));
    }
    void* a0 = OPT((void*) &cr);
    void* a1 = OPT((void*) &tp);
    void* a2 = OPT((void*) &p);
    st = ta_sa_key_unwrap(&nk, a0, kt, a1, alg, a2, h, b1, l1, c, &vp_who);
    created = 1;
    if (st == SA_STATUS_OK) {
        OK_REACH("unwrapped");
        vp_check_use(&k, h, SA_USAGE_FLAG_UNWRAP);
        bool rsa = alg == SA_CIPHER_ALGORITHM_RSA_PKCS1V15 || alg == SA_CIPHER_ALGORITHM_RSA_OAEP, ec = alg == SA_CIPHER_ALGORITHM_EC_ELGAMAL;
        bool cha = alg == SA_CIPHER_ALGORITHM_CHACHA20 || alg == SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
        P(1, k.type == (rsa ? SA_KEY_TYPE_RSA : ec ? SA_KEY_TYPE_EC : SA_KEY_TYPE_SYMMETRIC), "C01: the wrapping key type supports the cipher");
        P(1, rsa || ec || (cha ? k.size == 32 : k.size == 16 || k.size == 32), "C01: the wrapping key size supports the cipher");
        vp_check_child(nk, &cr, &k.rights, kt <= SA_KEY_TYPE_DH ? 1u << kt : 0);
        P(11, rsa || ec ? true : vp_ev_cipher_update + vp_ev_unwrap_aes > 0, "C11: success means the key was decrypted");
        P(11, !rsa || vp_ev_pkey_decrypt > 0, "C11: success means the key was decrypted");
    } else
        P(1, vp_store_live == vp_base_live, "C01: a refused operation yields no key");
#endif
    vp_end(st == SA_STATUS_OK, created);
}
