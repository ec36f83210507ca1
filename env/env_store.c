/* Compact handle store with the contract of internal/object_store.h (VP_SLOTS handles per store).  The real
 * object_store.c and slots.c are decided against the same contract by their own harnesses. */
#include "env.h"
#include "object_store.h"
#include <stdlib.h>
#ifndef VP_SLOTS
#define VP_SLOTS 2
#endif
int vp_store_refs; /* objects currently held by an acquire */
int vp_store_live; /* objects currently stored */
bool vp_fault_store;
struct object_store_s {
    object_free_function object_free;
    void* object[VP_SLOTS];
    unsigned refs[VP_SLOTS];
    sa_uuid owner[VP_SLOTS];
};
static bool same(const sa_uuid* a, const sa_uuid* b) {
    uint64_t x[2], y[2];
    memcpy(x, a->id, 16);
    memcpy(y, b->id, 16);
    return x[0] == y[0] && x[1] == y[1];
}
object_store_t* object_store_init(object_free_function object_free, size_t count, const char* name) {
    if (object_free == NULL)
        return NULL;
    if (vp_fails(vp_fault_alloc))
        return NULL;
    object_store_t* s = malloc(sizeof(struct object_store_s));
    s->object_free = object_free;
    for (int i = 0; i < VP_SLOTS; i++) {
        s->object[i] = NULL;
        s->refs[i] = 0;
    }
    return s;
}
void object_store_shutdown(object_store_t* s) {
    if (s == NULL)
        return;
    for (int i = 0; i < VP_SLOTS; i++)
        if (s->object[i] != NULL) {
            s->object_free(s->object[i]);
            s->object[i] = NULL;
            vp_store_live--;
        }
    free(s);
}
sa_status object_store_add(slot_t* slot, object_store_t* s, void* object, const sa_uuid* caller) {
    if (slot == NULL)
        return SA_STATUS_NULL_PARAMETER;
    *slot = SLOT_INVALID;
    if (s == NULL || object == NULL || caller == NULL)
        return SA_STATUS_NULL_PARAMETER;
    if (vp_fails(vp_fault_store))
        return SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT;
    for (int i = 0; i < VP_SLOTS; i++)
        if (s->object[i] == NULL) {
            s->object[i] = object;
            s->owner[i] = *caller;
            s->refs[i] = 0;
            vp_store_live++;
            *slot = (slot_t) i;
            return SA_STATUS_OK;
        }
    return SA_STATUS_NO_AVAILABLE_RESOURCE_SLOT;
}
/* every access below uses a constant slot number (cheaper to encode) */
static sa_status remove_at(object_store_t* s, int slot, const sa_uuid* caller) {
    if (s->object[slot] == NULL)
        return SA_STATUS_INVALID_PARAMETER;
    if (!same(&s->owner[slot], caller))
        return SA_STATUS_OPERATION_NOT_ALLOWED;
    vp_env_assert(s->refs[slot] == 0, "an object is removed only when nobody holds it");
    void* o = s->object[slot];
    s->object[slot] = NULL;
    vp_store_live--;
#ifdef VP_KEEP_REMOVED /* what removal does to the object is not examined */
    (void) o;
#else
    s->object_free(o);
#endif
    return SA_STATUS_OK;
}
sa_status object_store_remove(object_store_t* s, slot_t slot, const sa_uuid* caller) {
    if (s == NULL || caller == NULL)
        return SA_STATUS_NULL_PARAMETER;
    for (int i = 0; i < VP_SLOTS; i++)
        if (slot == (slot_t) i)
            return remove_at(s, i, caller);
    return SA_STATUS_INVALID_PARAMETER;
}
static sa_status acquire_at(void** object, object_store_t* s, int slot, const sa_uuid* caller) {
    if (s->object[slot] == NULL)
        return SA_STATUS_INVALID_PARAMETER;
    if (!same(&s->owner[slot], caller))
        return SA_STATUS_OPERATION_NOT_ALLOWED;
    s->refs[slot]++;
    vp_store_refs++;
    *object = s->object[slot];
    return SA_STATUS_OK;
}
sa_status object_store_acquire(void** object, object_store_t* s, slot_t slot, const sa_uuid* caller) {
    if (object == NULL)
        return SA_STATUS_NULL_PARAMETER;
    *object = NULL;
    if (s == NULL || caller == NULL)
        return SA_STATUS_NULL_PARAMETER;
    for (int i = 0; i < VP_SLOTS; i++)
        if (slot == (slot_t) i)
            return acquire_at(object, s, i, caller);
    return SA_STATUS_INVALID_PARAMETER;
}
static sa_status release_at(object_store_t* s, int slot, void* object, const sa_uuid* caller) {
    if (!same(&s->owner[slot], caller))
        return SA_STATUS_OPERATION_NOT_ALLOWED;
    if (s->object[slot] != object || s->refs[slot] == 0)
        return SA_STATUS_INTERNAL_ERROR;
    s->refs[slot]--;
    vp_store_refs--;
    return SA_STATUS_OK;
}
sa_status object_store_release(object_store_t* s, slot_t slot, void* object, const sa_uuid* caller) {
    if (s == NULL || caller == NULL || object == NULL)
        return SA_STATUS_NULL_PARAMETER;
    for (int i = 0; i < VP_SLOTS; i++)
        if (slot == (slot_t) i)
            return release_at(s, i, object, caller);
    return SA_STATUS_INVALID_PARAMETER;
}
size_t object_store_size(object_store_t* s) { return s == NULL ? 0 : VP_SLOTS; }
