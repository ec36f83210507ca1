/* The specification of who may load a key, and when. */
#ifndef VP_SESSION_SPEC_H
#define VP_SESSION_SPEC_H
#include "env.h"
#include "sa_types.h"
#define FLAG(r, f) ((((r).usage_flags) >> (f)) & 1)
static inline bool uuid_eq(const sa_uuid* x, const sa_uuid* y) {
    uint64_t a, b, c, d;
    memcpy(&a, x->id, 8);
    memcpy(&b, x->id + 8, 8);
    memcpy(&c, y->id, 8);
    memcpy(&d, y->id + 8, 8);
    return ((a ^ c) | (b ^ d)) == 0;
}
/* The conditions the specification puts on loading any key (sa_types.h, sa_rights). */
static inline bool spec_listed(const sa_rights* r, const sa_uuid* uuid) {
    bool id_ok = false;
    for (int i = 0; i < MAX_NUM_ALLOWED_TA_IDS; i++) {
        uint64_t a, b;
        memcpy(&a, r->allowed_tas[i].id, 8);
        memcpy(&b, r->allowed_tas[i].id + 8, 8);
        if ((a | b) != 0 && ((a & b) == UINT64_MAX || uuid_eq(&r->allowed_tas[i], uuid)))
            id_ok = true;
    }
    return id_ok;
}
static inline bool spec_in_window(const sa_rights* r) { return vp_now >= r->not_before && vp_now < r->not_on_or_after; }
static inline bool spec_outputs_ok(const sa_rights* r) {
    if (!FLAG(*r, SA_USAGE_FLAG_SVP_OPTIONAL) && !vp_video.svp_enabled) return false;
    if (!FLAG(*r, SA_USAGE_FLAG_ALLOWED_ANALOG_UNPROTECTED) && vp_video.analog_unprotected_count > 0) return false;
    if (!FLAG(*r, SA_USAGE_FLAG_ALLOWED_ANALOG_CGMSA) && vp_video.analog_cgmsa_count > 0) return false;
    if (!FLAG(*r, SA_USAGE_FLAG_ALLOWED_DIGITAL_UNPROTECTED) && vp_video.digital_unprotected_count > 0) return false;
    if (!FLAG(*r, SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP14) && vp_video.digital_hdcp14_count > 0) return false;
    if (!FLAG(*r, SA_USAGE_FLAG_ALLOWED_DIGITAL_HDCP22) && vp_video.digital_hdcp22_count > 0) return false;
    return true;
}
#endif
