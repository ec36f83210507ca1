#include "vp.h"
#ifndef VP_HAVOC_LOG
#define VP_HAVOC_LOG 160
#endif
uint64_t nondet_vp_u64(void);
uint64_t nd_u64(void) {
    uint64_t v = nondet_vp_u64();
    __CPROVER_input("nd", v);
    return v;
}
void vp_havoc(void* p, size_t n) {
    if (n == 0)
        return;
    __CPROVER_assert(__CPROVER_w_ok(p, n), "ENV: output buffer is writable for its whole length");
    __CPROVER_havoc_slice(p, n);
    for (size_t i = 0; i < n && i < VP_HAVOC_LOG; i++)
        __CPROVER_input("nd", ((const uint8_t*) p)[i]);
}
/* own function so that its (constant) loop bound can be set without touching the bound of the code under test */
void vp_log_bytes(const void* p, size_t n) {
    const uint8_t* b = p;
    for (size_t i = 0; i < n; i++)
        __CPROVER_input("nd", b[i]);
}

void* vp_buf_at(size_t max, size_t len) {
    uint8_t* p = malloc(max);
    vp_havoc(p, max);
    return p + (max - len);
}
void* vp_buf(size_t max, size_t* len) {
    *len = nd_size(max);
    return vp_buf_at(max, *len);
}
void vp_output(void* p, size_t n) {
    if (n == 0)
        return;
    __CPROVER_assert(__CPROVER_w_ok(p, n), "ENV: output buffer is writable for its whole length");
    uint8_t* b = p;
    b[0] = nd_u8();
    b[n - 1] = nd_u8();
    size_t i = nd_size(n - 1);
    b[i] = nd_u8();
}

bool vp_hit;
