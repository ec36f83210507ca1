/* Primitives shared by every harness.  Compiled twice from the same text:
 *  - by goto-cc (VP_CBMC defined): nd_*() are solver variables, vp_assert is the obligation;
 *  - by gcc -fsanitize=address,undefined (VP_REPLAY): nd_*() return the solver's recorded values. */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifdef VP_CBMC
uint64_t nd_u64(void);
void vp_log_bytes(const void* p, size_t n);
#define vp_assert(c, msg) __CPROVER_assert((c), "PROP: " msg)
#define vp_env_assert(c, msg) __CPROVER_assert((c), "ENV: " msg)
#define vp_assume(c) __CPROVER_assume(c)
#define vp_reach(msg) __CPROVER_assert(0, "REACH: " msg)
void vp_havoc(void* p, size_t n);
#else
uint64_t nd_u64(void);
void vp_fail(const char* kind, const char* msg, const char* file, int line);
void vp_stop(const char* c, const char* file, int line);
#define vp_assert(c, msg) do { if (!(c)) vp_fail("PROP", msg, __FILE__, __LINE__); } while (0)
#define vp_env_assert(c, msg) do { if (!(c)) vp_fail("ENV", msg, __FILE__, __LINE__); } while (0)
#define vp_assume(c) do { if (!(c)) vp_stop(#c, __FILE__, __LINE__); } while (0)
#define vp_reach(msg) do { } while (0)
void vp_havoc(void* p, size_t n);
#endif

static inline uint8_t nd_u8(void) { return (uint8_t) nd_u64(); }
static inline uint16_t nd_u16(void) { return (uint16_t) nd_u64(); }
static inline uint32_t nd_u32(void) { return (uint32_t) nd_u64(); }
static inline int nd_int(void) { return (int) (uint32_t) nd_u64(); }
static inline bool nd_bool(void) { return (nd_u64() & 1) != 0; }
static inline size_t nd_size(size_t max) { size_t v = nd_u64(); vp_assume(v <= max); return v; }

/* An environment call fails if its class of faults is on and the solver says so; vp_hit records that one did. */
extern bool vp_hit;
static inline bool vp_fails(bool on) {
    if (on && nd_bool()) {
        vp_hit = true;
        return true;
    }
    return false;
}
/* Fill n bytes (n a small constant) with recorded nondeterminism. */
static inline void nd_bytes(void* p, size_t n) {
    uint8_t* b = p;
    for (size_t i = 0; i < n; i++)
        b[i] = nd_u8();
}

#ifdef VP_CBMC
/* Give a whole object an arbitrary value; its bytes are logged so that the replay can rebuild it. */
#define ND_OBJ(x) \
    do { \
        __CPROVER_havoc_object(&(x)); \
        vp_log_bytes(&(x), sizeof(x)); \
    } while (0)
#else
#define ND_OBJ(x) \
    do { \
        for (size_t nd_i_ = 0; nd_i_ < sizeof(x); nd_i_++) \
            ((uint8_t*) &(x))[nd_i_] = nd_u8(); \
    } while (0)
#endif

/* Obligation of property number `id`; a check of another property compiles it out. */
#ifndef VP_PROP
#define VP_PROP 0
#endif
#define P(id, c, msg) do { if (VP_PROP == 0 || VP_PROP == (id)) vp_assert((c), msg); } while (0)
/* A buffer of arbitrary length *len <= max (max a constant) with arbitrary content.  It ends exactly where its
 * object ends, so that reading or writing past its length is an out-of-bounds access. */
void* malloc(size_t);
void* vp_buf(size_t max, size_t* len);
void* vp_buf_at(size_t max, size_t len);
/* The same, or NULL with any length. */
static inline void* vp_optbuf(size_t max, size_t* len) {
    if (nd_bool()) {
        *len = nd_u64();
        return NULL;
    }
    return vp_buf(max, len);
}
/* The callee writes n bytes to p.  vp_havoc: every byte arbitrary.  vp_output: the whole range must be writable;
 * first, last and one more byte become arbitrary (for ranges of symbolic length whose content nobody examines). */
void vp_output(void* p, size_t n);
#endif
