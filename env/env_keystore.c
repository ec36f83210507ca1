/* Key store with the contract of internal/key_store.h, without the wrapping of stored keys.  The real key_store.c is
 * decided against the same contract by its own harnesses (ks_*). */
#include "env.h"
#include "key_store.h"
#include "key_type.h"
#include "rights.h"
#include "stored_key_internal.h"
#include <stdlib.h>
int vp_keys_loaded;
static void kfree(void* o) { stored_key_free(o); }
key_store_t* key_store_init(size_t size) { return object_store_init(kfree, size, "key"); }
void key_store_shutdown(key_store_t* store) { object_store_shutdown(store); }
static sa_status copy(stored_key_t** out, const stored_key_t* k) {
    const sa_header* h = stored_key_get_header(k);
    return stored_key_create(out, &h->rights, NULL, h->type, &h->type_parameters, h->size, stored_key_get_key(k), stored_key_get_length(k));
}
sa_status key_store_import_stored_key(sa_key* key, key_store_t* store, stored_key_t* k, const sa_uuid* who) {
    if (key == NULL)
        return SA_STATUS_NULL_PARAMETER;
    *key = INVALID_HANDLE;
    if (store == NULL || k == NULL || who == NULL)
        return SA_STATUS_NULL_PARAMETER;
    if (vp_fails(vp_fault_otp))
        return SA_STATUS_INTERNAL_ERROR;
    stored_key_t* c = NULL;
    sa_status st = copy(&c, k);
    if (st != SA_STATUS_OK)
        return SA_STATUS_INTERNAL_ERROR;
    st = object_store_add(key, store, c, who);
    if (st != SA_STATUS_OK)
        stored_key_free(c);
    return st;
}
sa_status key_store_import_exported(sa_key* key, key_store_t* store, const void* exported, size_t n, const sa_uuid* who) {
    if (key == NULL)
        return SA_STATUS_NULL_PARAMETER;
    *key = INVALID_HANDLE;
    if (store == NULL || exported == NULL || who == NULL)
        return SA_STATUS_NULL_PARAMETER;
    volatile uint8_t t = n ? ((const uint8_t*) exported)[n - 1] : 0;
    (void) t;
    if (nd_bool())
        return SA_STATUS_INVALID_KEY_FORMAT;
    sa_rights r;
    sa_type_parameters tp;
    memset(&tp, 0, sizeof tp);
    memset(&r, 0, sizeof r);
    uint8_t b[16] = {0};
    stored_key_t* c = NULL;
    sa_status st = stored_key_create(&c, &r, NULL, SA_KEY_TYPE_SYMMETRIC, &tp, 16, b, 16);
    if (st == SA_STATUS_OK)
        st = object_store_add(key, store, c, who);
    if (st != SA_STATUS_OK)
        stored_key_free(c);
    return st;
}
sa_status key_store_export(void* out, size_t* out_length, key_store_t* store, sa_key key, const void* mixin, size_t mixin_length, const sa_uuid* who) {
    if (out_length == NULL || store == NULL || who == NULL)
        return SA_STATUS_NULL_PARAMETER;
    if (key >= object_store_size(store) || (mixin != NULL && mixin_length != 16))
        return SA_STATUS_INVALID_PARAMETER;
    void* o = NULL;
    sa_status st = object_store_acquire(&o, store, key, who);
    if (st != SA_STATUS_OK)
        return st;
    const sa_header* h = stored_key_get_header(o);
    size_t need = 16 + sizeof(sa_header) + 24 + (stored_key_get_length(o) / 16 + 1) * 16 + 32;
    if (!SA_USAGE_BIT_TEST(h->rights.usage_flags, SA_USAGE_FLAG_CACHEABLE))
        st = SA_STATUS_OPERATION_NOT_ALLOWED;
    else if (out == NULL)
        *out_length = need;
    else if (*out_length < need)
        st = SA_STATUS_INVALID_PARAMETER;
    else if (vp_fails(vp_fault_otp))
        st = SA_STATUS_INTERNAL_ERROR;
    else {
        vp_output(out, need);
        *out_length = need;
    }
    object_store_release(store, key, o, who);
    return st;
}
static bool may_use(const sa_rights* r, const sa_uuid* who) {
    bool listed = false;
    uint64_t c, d;
    memcpy(&c, who->id, 8);
    memcpy(&d, who->id + 8, 8);
    for (int i = 0; i < MAX_NUM_ALLOWED_TA_IDS; i++) {
        uint64_t a, b;
        memcpy(&a, r->allowed_tas[i].id, 8);
        memcpy(&b, r->allowed_tas[i].id + 8, 8);
        if ((a | b) != 0 && ((a & b) == UINT64_MAX || (a == c && b == d)))
            listed = true;
    }
    return listed && vp_now >= r->not_before && vp_now < r->not_on_or_after;
}
sa_status key_store_unwrap(stored_key_t** out, key_store_t* store, sa_key key, const sa_uuid* who) {
    if (out == NULL)
        return SA_STATUS_NULL_PARAMETER;
    *out = NULL;
    if (store == NULL || who == NULL)
        return SA_STATUS_NULL_PARAMETER;
    if (key >= object_store_size(store))
        return SA_STATUS_INVALID_PARAMETER;
    void* o = NULL;
    sa_status st = object_store_acquire(&o, store, key, who);
    if (st != SA_STATUS_OK)
        return st;
    const sa_header* h = stored_key_get_header(o);
    if (!may_use(&h->rights, who) || !rights_allowed_video_output_state(&h->rights, &vp_video))
        st = SA_STATUS_OPERATION_NOT_ALLOWED;
    else if (vp_fails(vp_fault_otp))
        st = SA_STATUS_INTERNAL_ERROR;
    else {
        st = copy(out, o);
        if (st != SA_STATUS_OK)
            st = SA_STATUS_INTERNAL_ERROR;
        else
            vp_keys_loaded++;
    }
    object_store_release(store, key, o, who);
    return st;
}
sa_status key_store_get_header(sa_header* header, key_store_t* store, sa_key key, const sa_uuid* who) {
    if (header == NULL || store == NULL || who == NULL)
        return SA_STATUS_NULL_PARAMETER;
    if (key >= object_store_size(store))
        return SA_STATUS_INVALID_PARAMETER;
    void* o = NULL;
    sa_status st = object_store_acquire(&o, store, key, who);
    if (st != SA_STATUS_OK)
        return st;
    *header = *stored_key_get_header(o);
    object_store_release(store, key, o, who);
    return SA_STATUS_OK;
}
sa_status key_store_remove(key_store_t* store, sa_key key, const sa_uuid* who) {
    if (store == NULL || who == NULL)
        return SA_STATUS_NULL_PARAMETER;
    return object_store_remove(store, key, who);
}
