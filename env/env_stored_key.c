/* stored_key.c replaced by a fixed-size record (its contract: a key of a supported type and size, with the given bytes).
 * Used where the length of the key bytes is under the caller's control; the real file is decided elsewhere. */
#include "env.h"
#include "key_type.h"
#include "rights.h"
#include "stored_key_internal.h"
#include <stdlib.h>
struct stored_key_s { sa_header header; size_t key_length; uint8_t key[48]; };
const void* stored_key_get_key(const stored_key_t* k) { return k ? k->key : NULL; }
size_t stored_key_get_length(const stored_key_t* k) { return k ? k->key_length : 0; }
const sa_header* stored_key_get_header(const stored_key_t* k) { return k ? &k->header : NULL; }
static void skcopy(uint8_t* to, const uint8_t* in, size_t n) {
    for (size_t i = 0; i < 48; i++)
        if (i < n)
            to[i] = in[i];
}
sa_status stored_key_create(stored_key_t** out, const sa_rights* r, const sa_rights* pr, sa_key_type type, const sa_type_parameters* tp, size_t size, const void* in, size_t n) {
    if (!out)
        return SA_STATUS_NULL_PARAMETER;
    *out = NULL;
    if (!r || !in)
        return SA_STATUS_NULL_PARAMETER;
    if (!key_type_supports_any(type, tp->curve, size) || !rights_validate_format(r))
        return SA_STATUS_INVALID_PARAMETER;
    if (vp_fails(vp_fault_alloc) || n > 48)
        return SA_STATUS_INTERNAL_ERROR;
    stored_key_t* k = malloc(sizeof *k);
    vp_live_allocs++;
    memset(k, 0, sizeof *k);
    memcpy(k->header.magic, "sak0", 4);
    k->header.rights = *r;
    k->header.type = type;
    k->header.type_parameters = *tp;
    k->header.size = size;
    k->key_length = n;
    skcopy(k->key, in, n);
    *out = k;
    return SA_STATUS_OK;
}
void stored_key_free(stored_key_t* k) {
    if (k) {
        vp_live_allocs--;
        free(k);
    }
}
