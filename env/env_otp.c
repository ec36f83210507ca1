/* Ideal key ladder: wrapping is the identity, the MAC is a constant.  Only for properties that do not depend
 * on confidentiality or integrity of the wrapped form. */
#include "env.h"
#include "porting/otp.h"
#include "porting/otp_internal.h"
#include "stored_key_internal.h"
sa_status otp_wrap_aes_cbc(void* wrapped, const key_ladder_inputs_t* k, const void* in, size_t in_length, const void* iv) {
    if (vp_fails(vp_fault_otp))
        return SA_STATUS_INTERNAL_ERROR;
    memmove(wrapped, in, in_length);
    return SA_STATUS_OK;
}
sa_status otp_unwrap_aes_cbc(void* out, const key_ladder_inputs_t* k, const void* wrapped, size_t wrapped_length, const void* iv) {
    if (vp_fails(vp_fault_otp))
        return SA_STATUS_INTERNAL_ERROR;
    memmove(out, wrapped, wrapped_length);
    return SA_STATUS_OK;
}
sa_status otp_hmac_sha256(void* mac, const key_ladder_inputs_t* k, const void* in1, size_t l1, const void* in2, size_t l2,
        const void* in3, size_t l3) {
    if (vp_fails(vp_fault_otp))
        return SA_STATUS_INTERNAL_ERROR;
    memset(mac, 0x5A, 32);
    return SA_STATUS_OK;
}
/* The software AES of the porting layer: documented parameter checks, arbitrary plaintext, the whole input is read. */
unsigned vp_ev_unwrap_aes;
static sa_status soft_aes(void* out, const void* in, size_t n, const void* key, size_t key_length) {
    if (out == NULL || in == NULL || key == NULL)
        return SA_STATUS_NULL_PARAMETER;
    if (key_length != 16 && key_length != 32)
        return SA_STATUS_INVALID_PARAMETER;
    if (n > 0) {
        volatile unsigned char t = ((const unsigned char*) in)[n - 1];
        t = ((const unsigned char*) key)[key_length - 1];
        (void) t;
    }
    if (vp_fails(vp_fault_otp))
        return SA_STATUS_INTERNAL_ERROR;
    vp_output(out, n);
    vp_ev_unwrap_aes++;
    return SA_STATUS_OK;
}
sa_status unwrap_aes_ecb_internal(void* out, const void* in, size_t in_length, const void* key, size_t key_length) {
    return in_length % 16 != 0 ? SA_STATUS_INVALID_PARAMETER : soft_aes(out, in, in_length, key, key_length);
}
sa_status unwrap_aes_cbc_internal(void* out, const void* in, size_t in_length, const void* iv, const void* key, size_t key_length) {
    if (iv == NULL)
        return SA_STATUS_NULL_PARAMETER;
    volatile unsigned char t = ((const unsigned char*) iv)[15];
    (void) t;
    return in_length % 16 != 0 ? SA_STATUS_INVALID_PARAMETER : soft_aes(out, in, in_length, key, key_length);
}
unsigned vp_ev_gcm_ok;
sa_status unwrap_aes_gcm_internal(void* out, const void* in, size_t in_length, const void* iv, size_t iv_length, const void* aad, size_t aad_length,
        const void* tag, size_t tag_length, const void* key, size_t key_length) {
    if (iv == NULL || tag == NULL || (aad == NULL && aad_length > 0))
        return SA_STATUS_NULL_PARAMETER;
    if (iv_length != 12 || tag_length > 16)
        return SA_STATUS_INVALID_PARAMETER;
    sa_status st = soft_aes(out, in, in_length, key, key_length);
    if (st != SA_STATUS_OK)
        return st;
    if (nd_bool())
        return SA_STATUS_INTERNAL_ERROR; /* the tag does not verify */
    vp_ev_gcm_ok++;
    return SA_STATUS_OK;
}
sa_status otp_unwrap_aes_gcm(void* out, const key_ladder_inputs_t* k, sa_root_key_type type, const void* wrapped, size_t wrapped_length, const void* iv, size_t iv_length,
        const void* aad, size_t aad_length, const void* tag, size_t tag_length) {
    uint8_t key[16];
    return unwrap_aes_gcm_internal(out, wrapped, wrapped_length, iv, iv_length, aad, aad_length, tag, tag_length, key, 16);
}
sa_status otp_device_id(uint64_t* id) {
    if (id == NULL)
        return SA_STATUS_NULL_PARAMETER;
    *id = 0x0123456789ABCDEFULL;
    return SA_STATUS_OK;
}
sa_status otp_root_key_ladder(stored_key_t** out, const sa_rights* rights, sa_root_key_type type, const void* c1, const void* c2, const void* c3, const void* c4) {
    if (out == NULL || rights == NULL || c1 == NULL || c2 == NULL || c3 == NULL || c4 == NULL)
        return SA_STATUS_NULL_PARAMETER;
    if (vp_fails(vp_fault_otp))
        return SA_STATUS_INTERNAL_ERROR;
    uint8_t k[16];
    vp_havoc(k, 16);
    sa_type_parameters tp;
    memset(&tp, 0, sizeof tp);
    return stored_key_create(out, rights, NULL, SA_KEY_TYPE_SYMMETRIC, &tp, 16, k, 16);
}
