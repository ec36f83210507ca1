/* The real key_store.c against its contract (OP 1: load, 2: export and import, 3: header/remove). */
#include "env.h"
#include "key_store.h"
#include "key_type.h"
#include "object_store.h"
#include "rights.h"
#include "session_spec.h"
#include "stored_key_internal.h"
#include <stdlib.h>
#ifndef KSIZE
#define KSIZE 16
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
static void faults(bool on) { vp_fault_alloc = vp_fault_otp = vp_fault_store = on; }
extern const uint8_t* vp_presented_tag;
#ifdef NOIDEAL
static const bool vp_bad_unwrap; /* wrapping is the identity */
#else
extern bool vp_bad_unwrap;
#endif

static bool bytes_eq(const void* x, const void* y, size_t n) {
    const uint8_t *a = x, *b = y;
    uint8_t d = 0;
    for (size_t i = 0; i < n; i++)
        d |= a[i] ^ b[i];
    return d == 0;
}

void HARNESS(void) {
    sa_uuid owner, who;
#if OP == 2 || OP >= 5 || (OP == 1 && SAME) /* the TA list is arbitrary, so the caller's own value does not matter */
    for (int i = 0; i < 16; i++)
        owner.id[i] = (uint8_t) (0x11 + 7 * i);
    who = owner;
#else
    ND_OBJ(owner);
    ND_OBJ(who);
#endif
    vp_now = nd_u64();
    vp_video.analog_unprotected_count = nd_int();
    vp_video.analog_cgmsa_count = nd_int();
    vp_video.digital_unprotected_count = nd_int();
    vp_video.digital_hdcp14_count = nd_int();
    vp_video.digital_hdcp22_count = nd_int();
    vp_video.svp_enabled = nd_bool();
    key_store_t* store = key_store_init(4);
    vp_assume(store != NULL);
    long base = vp_live_allocs;
    sa_rights r;
    ND_OBJ(r);
#if OP == 1 || OP == 2 || OP == 6
    memset(r.id, 0, sizeof r.id); /* the key's name plays no part in loading it */
    r.id[0] = 'k';
#endif
#if OP == 2
    r.usage_flags |= 1ULL << SA_USAGE_FLAG_CACHEABLE;
#endif
    sa_type_parameters tp;
    memset(&tp, 0, sizeof tp);
    uint8_t bytes[32];
    vp_havoc(bytes, 32);
#ifdef ECKEY
    tp.curve = SA_ELLIPTIC_CURVE_NIST_P256;
    sa_key_type type = SA_KEY_TYPE_EC;
    size_t size = 32;
#else
    sa_key_type type = SA_KEY_TYPE_SYMMETRIC;
    size_t size = KSIZE;
#endif
    stored_key_t* sk = NULL;
    sa_status st = stored_key_create(&sk, &r, NULL, type, &tp, size, bytes, KSIZE);
    vp_assume(st == SA_STATUS_OK);
    sa_key k = INVALID_HANDLE;
    faults(FAULTS && OP == 4);
    st = key_store_import_stored_key(&k, store, sk, &owner);
#if OP == 4 /* storing a key under faults */
    P(11, st != SA_STATUS_OK || !vp_hit, "C11: storing a key fails if one of its steps fails");
    if (st == SA_STATUS_OK) vp_reach("stored");
    else P(6, vp_store_live == 0, "C06: a failed call leaves no new key");
#else
    P(14, st == SA_STATUS_OK, "C14: a well-formed key is stored");
    vp_assume(st == SA_STATUS_OK && k == 0);
    k = 0;
    faults(FAULTS);
#endif
#if OP == 1 /* loading */
    sa_key h = SAME ? k : (sa_key) nd_u64();
    if (SAME) who = owner;
    stored_key_t* got = NULL;
    st = key_store_unwrap(&got, store, h, &who);
    bool may = h == k && uuid_eq(&who, &owner) && spec_listed(&r, &who) && spec_in_window(&r) && spec_outputs_ok(&r);
    if (st == SA_STATUS_OK) {
        vp_reach("key loaded");
        P(4, uuid_eq(&who, &owner), "C04: only the owner loads a key");
        P(4, h == k, "C04: only a live key handle is usable");
        P(2, spec_listed(&r, &who), "C02: the caller is on the key's TA list");
        P(2, spec_in_window(&r), "C02: the key is inside its validity window");
        P(2, spec_outputs_ok(&r), "C02: every active output is allowed by the key");
        P(11, !vp_hit, "C11: loading a key fails if one of its steps fails");
        P(14, stored_key_get_length(got) == KSIZE, "C14: the loaded key has the stored length");
        P(14, !vp_bad_unwrap, "C14: the key bytes are unwrapped with the inputs they were wrapped with");
        for (int i = 0; i < KSIZE; i++)
            P(14, ((const uint8_t*) stored_key_get_key(got))[i] == bytes[i], "C14: the loaded key has the stored bytes");
        const sa_header* hd = stored_key_get_header(got);
        P(21, hd->type == type && hd->size == size, "C21: the loaded key has its true type and size");
        P(14, hd->rights.usage_flags == r.usage_flags && hd->rights.child_usage_flags == r.child_usage_flags && hd->rights.not_before == r.not_before &&
                hd->rights.not_on_or_after == r.not_on_or_after, "C14: the loaded key has the stored rights");
        stored_key_free(got);
    } else {
        P(6, got == NULL, "C06: a failed call yields no key");
        P(2, vp_hit || !may, "C02: a key that may be used is not refused");
    }
#elif OP == 3 /* header and removal by anyone */
    sa_key h = (sa_key) nd_u64();
    sa_header hd;
    st = key_store_get_header(&hd, store, h, &who);
    if (st == SA_STATUS_OK) {
        vp_reach("header");
        P(4, uuid_eq(&who, &owner), "C04: only the owner reads a key's header");
        P(4, h == k, "C04: only a live key handle is usable");
        P(21, hd.type == type && hd.size == size, "C21: the header reports the true type and size");
        for (int i = 0; i < 4; i++)
            P(14, hd.magic[i] == "sak0"[i], "C14: the header carries the format's magic");
        P(14, bytes_eq(&hd.rights, &r, sizeof r), "C14: the header reports the key's rights");
    }
    h = (sa_key) nd_u64();
    st = key_store_remove(store, h, &who);
    if (st == SA_STATUS_OK) {
        vp_reach("removed");
        P(4, uuid_eq(&who, &owner), "C04: only the owner removes a key");
        P(4, h == k, "C04: only a live key handle is removable");
        P(4, key_store_get_header(&hd, store, k, &owner) != SA_STATUS_OK, "C04: a released handle is refused");
    }
#elif OP == 6 /* the length protocol of export */
    who = owner;
    uint8_t mixin[16];
    vp_havoc(mixin, 16);
    const size_t full = 16 + sizeof(sa_header) + 24 + (KSIZE / 16 + 1) * 16 + 32;
    uint8_t* out = malloc(full);
    vp_havoc(out, full);
    bool with = nd_bool(), ask = nd_bool();
    size_t len = nd_u64();
    if (!ask)
        vp_assume(len <= full);
    const size_t cap = len;
    size_t at = nd_size(full - 1);
    uint8_t was = out[at];
    st = key_store_export(ask ? NULL : out, &len, store, k, with ? mixin : NULL, 16, &who);
    if (st == SA_STATUS_OK) {
        vp_reach("exported");
        P(14, (r.usage_flags >> SA_USAGE_FLAG_CACHEABLE) & 1, "C14: only a cacheable key is exported");
        P(23, len == full, "C23: the container length is exact");
        P(23, ask || cap >= full, "C23: a buffer that is too small is refused");
        P(11, !vp_hit, "C11: an export one of whose steps failed does not succeed");
    } else {
        P(14, vp_hit || !((r.usage_flags >> SA_USAGE_FLAG_CACHEABLE) & 1) || (!ask && cap < full), "C14: a cacheable key can be exported");
        P(23, vp_hit || out[at] == was, "C23: a refused call writes nothing");
    }
    P(23, !ask || out[at] == was, "C23: a call that asks for the length writes nothing");
#elif OP == 2 /* export, then import of a possibly altered container */
    who = owner;
    uint8_t mixin[16];
    vp_havoc(mixin, 16);
    const size_t full = 16 + sizeof(sa_header) + 24 + (KSIZE / 16 + 1) * 16 + 32;
    uint8_t* out = malloc(full);
    bool with = MIXIN;
    size_t len = full;
    st = key_store_export(out, &len, store, k, with ? mixin : NULL, 16, &who);
    P(23, st != SA_STATUS_OK || len == full, "C23: the container length is exact");
    P(14, st == SA_STATUS_OK, "C14: a cacheable key can be exported");
    vp_assume(st == SA_STATUS_OK);
#ifdef ALTERED /* any bytes that differ from what was exported */
    size_t n = full;
#ifdef EXTRA /* of any length up to EXTRA longer */
    n = nd_size(full + EXTRA);
#else
#define EXTRA 0
#endif
    uint8_t* in = malloc(full + EXTRA);
    vp_havoc(in, full + EXTRA);
    bool altered = n != full || !bytes_eq(in, out, full);
#ifdef CTLEN /* the length field, like every other, is arbitrary unless pinned here */
    size_t ct = (KSIZE / 16 + 1) * 16;
    memcpy(in + 16 + sizeof(sa_header) + 16, &ct, 8);
#endif
#else /* exactly what was exported */
    size_t n = full;
    uint8_t* in = out;
    bool altered = false;
#endif
    vp_presented_tag = altered && n >= 32 ? in + n - 32 : NULL;
    sa_key k2 = INVALID_HANDLE;
    st = key_store_import_exported(&k2, store, in, n, &who);
#ifdef ALTERED
    P(14, st != SA_STATUS_OK || !altered, "C14: a container altered, truncated or extended is refused");
#else
    P(14, st == SA_STATUS_OK, "C14: an unaltered container is accepted");
    vp_assume(st == SA_STATUS_OK);
    P(14, k2 == 1, "C14: the imported key has its own handle");
    vp_assume(k2 == 1);
    k2 = 1;
    vp_reach("imported");
    stored_key_t* got = NULL;
    st = key_store_unwrap(&got, store, k2, &who);
    if (st == SA_STATUS_OK) {
        vp_reach("loaded again");
        const sa_header* hd = stored_key_get_header(got);
        P(14, hd->type == type && hd->size == size && bytes_eq(&hd->rights, &r, sizeof r), "C14: the imported key has the exported type, size and rights");
        P(14, bytes_eq(&hd->type_parameters, &tp, sizeof tp), "C14: the imported key has the exported parameters");
        P(14, stored_key_get_length(got) == KSIZE, "C14: the imported key has the exported length");
        P(14, !vp_bad_unwrap, "C14: the key bytes are unwrapped with the inputs they were wrapped with");
        for (int i = 0; i < KSIZE; i++)
            P(14, ((const uint8_t*) stored_key_get_key(got))[i] == bytes[i], "C14: the imported key has the exported bytes");
        stored_key_free(got);
    }
#endif
#elif OP == 5 /* any bytes presented as a container, nothing exported before */
    who = owner;
    size_t n;
    uint8_t* in = vp_buf(sizeof(sa_header) + 16 + 24 + 48 + 32, &n);
    vp_presented_tag = n >= 32 ? in + n - 32 : NULL;
    sa_key k2 = INVALID_HANDLE;
    st = key_store_import_exported(&k2, store, in, n, &who);
    P(14, st != SA_STATUS_OK, "C14: a container never exported is refused");
    P(6, k2 == INVALID_HANDLE, "C06: a failed call yields no handle");
#endif
    faults(false);
    stored_key_free(sk);
    P(6, vp_store_refs == 0, "C06: the call left no key held");
#if OP != 3
    key_store_shutdown(store);
    P(6, vp_live_allocs == base, "C06: no memory is leaked");
#endif
}
