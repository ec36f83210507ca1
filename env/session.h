/* Builds a session with keys through the real client/key stores, and states the specification of key use. */
#ifndef VP_SESSION_H
#define VP_SESSION_H
#include "client_store.h"
#include "env.h"
#include "key_store.h"
#include "key_type.h"
#include "rights.h"
#include "session_spec.h"
#include "stored_key_internal.h"
#include "ta_sa.h"

#ifndef FAULTS
#define FAULTS 0
#endif

static sa_uuid vp_owner, vp_who;
static ta_client vp_slot;
static sa_key vp_nkeys; /* keys get handles 0, 1, ... */
static client_t* vp_session;
static long vp_base_allocs, vp_base_ssl;
static int vp_base_live;

static inline void vp_world(void) {
    vp_now = nd_u64();
    vp_video.analog_unprotected_count = nd_int();
    vp_video.analog_cgmsa_count = nd_int();
    vp_video.digital_unprotected_count = nd_int();
    vp_video.digital_hdcp14_count = nd_int();
    vp_video.digital_hdcp22_count = nd_int();
    vp_video.svp_enabled = nd_bool();
}
/* Opens a session for an arbitrary owner; calls are then made by vp_who (arbitrary, or the owner). */
static inline void vp_begin(bool same_caller) {
    vp_world();
    if (same_caller) { /* the TA list is arbitrary, so the caller's own value does not matter */
        for (int i = 0; i < 16; i++)
            vp_owner.id[i] = (uint8_t) (0x11 + 7 * i);
        vp_who = vp_owner;
    } else {
        ND_OBJ(vp_owner);
        ND_OBJ(vp_who);
    }
    client_store_t* cs = client_store_global();
    vp_assume(cs != NULL);
    vp_base_allocs = vp_live_allocs;
    vp_base_ssl = vp_live_ssl;
    sa_status st = client_store_add(&vp_slot, cs, &vp_owner);
    vp_assume(st == SA_STATUS_OK && vp_slot == 0);
    vp_slot = 0;
    st = client_store_acquire(&vp_session, cs, vp_slot, &vp_owner);
    vp_assume(st == SA_STATUS_OK);
    client_store_release(cs, vp_slot, vp_session, &vp_owner);
}
/* Faults start only once the session is set up. */
static inline void vp_faults(bool on) {
    vp_fault_ssl = vp_fault_alloc = vp_fault_otp = vp_fault_mutex = vp_fault_store = on;
    vp_base_live = vp_store_live;
}
/* Puts a key in the session's key store; the caller's assumptions make this succeed. */
static inline sa_key vp_add_key(const sa_rights* rights, sa_key_type type, const sa_type_parameters* tp, size_t size,
        const void* bytes, size_t length) {
    stored_key_t* sk = NULL;
    sa_status st = stored_key_create(&sk, rights, NULL, type, tp, size, bytes, length);
    vp_assume(st == SA_STATUS_OK);
    sa_key k = INVALID_HANDLE;
    st = key_store_import_stored_key(&k, client_get_key_store(vp_session), sk, &vp_owner);
    vp_assume(st == SA_STATUS_OK && k == vp_nkeys);
    stored_key_free(sk);
    return vp_nkeys++;
}
/* An arbitrary key of the given type: arbitrary rights, size, curve and bytes. */
typedef struct {
    sa_rights rights;
    sa_key_type type;
    sa_type_parameters tp;
    size_t size;
    sa_key handle;
    uint8_t bytes[32];
} vp_key_t;
static inline void vp_any_rights(sa_rights* r) {
    ND_OBJ(*r);
}
#define VP_SYM 1
#define VP_EC 2
#define VP_RSA 4
#define VP_DH 8
/* a key of one of the given types, of any size that the key store admits (symmetric sizes up to 32 bytes) */
static inline void vp_any_key(vp_key_t* k, unsigned types) {
    vp_any_rights(&k->rights);
    memset(&k->tp, 0, sizeof k->tp);
    if (types == VP_SYM)
        k->type = SA_KEY_TYPE_SYMMETRIC;
    else if (types == VP_EC)
        k->type = SA_KEY_TYPE_EC;
    else if (types == VP_RSA)
        k->type = SA_KEY_TYPE_RSA;
    else if (types == VP_DH)
        k->type = SA_KEY_TYPE_DH;
    else {
        k->type = nd_u8() & 3;
        vp_assume((types >> k->type) & 1);
    }
    size_t length = 32;
    k->size = nd_u16();
    if (k->type == SA_KEY_TYPE_SYMMETRIC) {
#ifdef VP_SYM_SIZE
        k->size = VP_SYM_SIZE;
        length = VP_SYM_SIZE;
#else
        /* AES-128, AES-256 and one size that no AES operation supports */
        k->size = nd_bool() ? 16 : nd_bool() ? 32 : 20;
        length = k->size;
#endif
    } else {
        if (k->type == SA_KEY_TYPE_EC) {
            k->tp.curve = nd_u8() & 15;
            vp_assume(k->tp.curve <= SA_ELLIPTIC_CURVE_NIST_P224);
        }
        vp_assume(k->size <= 512);
        length = 32;
        vp_pkey_bits = (int) k->size * 8;
    }
    vp_havoc(k->bytes, 32);
    k->handle = vp_add_key(&k->rights, k->type, &k->tp, k->size, k->bytes, length);
}
/* a symmetric key of the given (constant) size */
static inline void vp_any_sym(vp_key_t* k, size_t size) {
    vp_any_rights(&k->rights);
    memset(&k->tp, 0, sizeof k->tp);
    k->type = SA_KEY_TYPE_SYMMETRIC;
    k->size = size;
    vp_havoc(k->bytes, 32);
    k->handle = vp_add_key(&k->rights, k->type, &k->tp, k->size, k->bytes, size);
}
/* After a call that used key k: what a success tells (usage = required flag, or -1). */
static const vp_key_t* vp_other; /* a second live key, which an arbitrary handle may name as well */
static inline void vp_check_use(const vp_key_t* k, sa_key handle, int usage) {
    if (vp_other != NULL && handle == vp_other->handle)
        k = vp_other;
    P(4, uuid_eq(&vp_who, &vp_owner), "C04: only the owner of the session uses its keys");
    P(4, handle == k->handle, "C04: only a live key handle is usable");
    P(2, spec_listed(&k->rights, &vp_who), "C02: the caller is on the key's TA list");
    P(2, spec_in_window(&k->rights), "C02: the key is inside its validity window");
    if (usage >= 0)
        P(1, (k->rights.usage_flags >> usage) & 1, "C01: the key carries the usage flag of the operation");
}
/* What a successful call that created key nk from a parent must have stored. */
#define VP_OP_FLAGS ((uint64_t) SA_KEY_USAGE_MASK)
#define VP_OUT_FLAGS ((uint64_t) SA_USAGE_OUTPUT_PROTECTIONS_MASK)
static inline void vp_check_child(sa_key nk, const sa_rights* asked, const sa_rights* parent, unsigned types) {
    if (VP_PROP != 0 && VP_PROP != 3 && VP_PROP != 21)
        return;
    void* o = NULL;
    sa_status st = object_store_acquire(&o, client_get_key_store(vp_session), nk, &vp_owner);
    P(21, st == SA_STATUS_OK, "C21: a successful creation stores a key under the returned handle");
    if (st != SA_STATUS_OK || o == NULL)
        return;
    const sa_header* h = stored_key_get_header(o);
    uint64_t usage = asked->usage_flags;
    if (parent != NULL) {
        bool unwrap_only = (parent->usage_flags & VP_OP_FLAGS & ~(1ULL << SA_USAGE_FLAG_UNWRAP)) == 0 && parent->child_usage_flags != 0;
        if (unwrap_only) {
            P(3, (h->rights.usage_flags & VP_OP_FLAGS & ~parent->child_usage_flags) == 0,
                    "C03: a key unwrapped by an unwrap-only parent has only operations from its child flags");
            usage &= ~(VP_OP_FLAGS & ~parent->child_usage_flags);
        } else {
            P(3, (h->rights.usage_flags & VP_OUT_FLAGS & ~parent->usage_flags) == 0, "C03: the child has no output permission its parent lacks");
            usage &= ~(VP_OUT_FLAGS & ~parent->usage_flags);
        }
    }
    P(3, h->rights.usage_flags == usage, "C03: all other requested usage rights are taken over unchanged");
    P(3, h->rights.not_before == asked->not_before && h->rights.not_on_or_after == asked->not_on_or_after &&
            h->rights.child_usage_flags == asked->child_usage_flags, "C03: validity and child flags are taken over unchanged");
    for (int i = 0; i < MAX_NUM_ALLOWED_TA_IDS; i++)
        P(3, uuid_eq(&h->rights.allowed_tas[i], &asked->allowed_tas[i]), "C03: the TA list is taken over unchanged");
    P(21, (types >> h->type) & 1, "C21: the new key has the type that was asked for");
    if (h->type == SA_KEY_TYPE_SYMMETRIC) {
        P(21, h->size >= 16 && h->size <= 512, "C21: symmetric keys have a supported size");
        P(21, stored_key_get_length(o) == h->size, "C21: a symmetric key stores exactly size bytes");
    } else if (h->type == SA_KEY_TYPE_RSA)
        P(21, h->size == 128 || h->size == 256 || h->size == 384 || h->size == 512, "C21: RSA keys have a supported size");
    else if (h->type == SA_KEY_TYPE_DH)
        P(21, h->size > 0 && h->size <= DH_MAX_MOD_SIZE, "C21: DH keys have a supported size");
    else {
        int n = h->type_parameters.curve;
        size_t want = n == SA_ELLIPTIC_CURVE_NIST_P192 ? 24 : n == SA_ELLIPTIC_CURVE_NIST_P224 ? 28 : n == SA_ELLIPTIC_CURVE_NIST_P256 ? 32 :
            n == SA_ELLIPTIC_CURVE_NIST_P384 ? 48 : n == SA_ELLIPTIC_CURVE_NIST_P521 ? 66 : n == SA_ELLIPTIC_CURVE_ED25519 || n == SA_ELLIPTIC_CURVE_X25519 ? 32 :
            n == SA_ELLIPTIC_CURVE_X448 ? 56 : n == SA_ELLIPTIC_CURVE_ED448 ? 57 : 0;
        P(21, want != 0 && h->size == want, "C21: an EC key has a supported curve and that curve's size");
    }
    object_store_release(client_get_key_store(vp_session), nk, o, &vp_owner);
}
/* Nothing is left held by the call; closing the session then gives everything back. */
static inline void vp_end(bool ok, int created) {
    vp_fault_ssl = vp_fault_alloc = vp_fault_otp = vp_fault_mutex = vp_fault_store = false;
    P(11, !ok || !vp_hit, "C11: an operation one of whose internal steps failed does not report success");
    P(6, vp_store_refs == 0, "C06: the call left no session, key, context or buffer held");
    P(6, vp_mutex_held == 0, "C06: the call left no lock held");
    P(6, vp_store_live - vp_base_live == (ok ? created : 0), "C06: a failed call leaves no new object, a successful one exactly its own");
#ifdef VP_CLOSE
    if (VP_PROP == 0 || VP_PROP == 6) {
        vp_assume(vp_store_refs == 0);
        sa_status st = ta_sa_close(vp_slot, &vp_owner);
        P(6, st == SA_STATUS_OK, "C06: the session can be closed");
        P(6, vp_live_allocs == vp_base_allocs, "C06: no memory is leaked");
        P(6, vp_live_ssl == vp_base_ssl, "C06: no crypto object is leaked");
    }
#endif
}
#endif
