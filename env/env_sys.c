/* Environment: porting layer and libc calls outside the code under test. */
#include "env.h"
#include "porting/memory.h"
#include "porting/rand.h"
#include "porting/init.h"
#include "porting/transport.h"
#include "log.h"
#include <pthread.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

bool vp_fault_ssl, vp_fault_alloc, vp_fault_otp, vp_fault_mutex;
uint64_t vp_now;
video_output_state_t vp_video;
long vp_live_allocs;
int vp_mutex_held;

#ifndef VP_REAL_LOG
void log_entry(log_level_e level, const char* file, int line, const char* function, const char* format, ...) {
}
#endif

#ifndef VP_REAL_MEMORY
void* memory_internal_alloc(size_t size) {
    if (vp_fails(vp_fault_alloc))
        return NULL;
    void* p = malloc(size);
    if (p)
        vp_live_allocs++;
    return p;
}
void* memory_secure_alloc(size_t size) { return memory_internal_alloc(size); }
void memory_internal_free(void* p) {
    if (p)
        vp_live_allocs--;
    free(p);
}
void memory_secure_free(void* p) { memory_internal_free(p); }
void* memory_internal_realloc(void* buffer, size_t new_size) {
    if (vp_fails(vp_fault_alloc))
        return NULL;
    if (!buffer)
        vp_live_allocs++;
    return realloc(buffer, new_size);
}
void* memory_secure_realloc(void* buffer, size_t new_size) { return memory_internal_realloc(buffer, new_size); }
int memory_memcmp_constant(const void* in1, const void* in2, size_t length) {
    const uint8_t* a = in1;
    const uint8_t* b = in2;
    int result = 0;
    if (length == 16) { /* a UUID, IV or MAC block: same value, fewer symbolic steps */
        uint64_t x[2], y[2];
        memcpy(x, a, 16);
        memcpy(y, b, 16);
        return ((x[0] ^ y[0]) | (x[1] ^ y[1])) != 0;
    }
    for (size_t i = 0; i < length; ++i)
        result |= a[i] ^ b[i];
    return result;
}
void* memory_memset_unoptimizable(void* destination, uint8_t value, size_t size) {
    if (size)
        memset(destination, value, size);
    return destination;
}
bool memory_is_valid_svp(void* memory_location, size_t size) {
    return memory_location != NULL && (unsigned long) memory_location + size >= (unsigned long) memory_location;
}
bool memory_is_valid_clear(void* memory_location, size_t size) {
    return memory_location != NULL && (unsigned long) memory_location + size >= (unsigned long) memory_location;
}
#endif

#ifndef VP_REAL_RAND
static void vp_fill(void* p, size_t n) {
    uint8_t* b = p;
    for (size_t i = 0; i < n; i++)
        b[i] = nd_u8();
}
bool rand_bytes(void* out, size_t out_length) {
    if (out == NULL)
        return false;
    if (vp_fails(vp_fault_otp))
        return false;
    if (out_length == 16 || out_length == 128)
        vp_fill(out, out_length); /* constant positions: an IV inside a record stays cheap to encode */
    else
        vp_output(out, out_length);
    return true;
}
#endif

#ifndef VP_REAL_INIT
void init_openssl_allocator(void) {
}
#endif

#ifndef VP_REAL_VIDEO
bool video_output_poll(video_output_state_t* state) {
    if (state == NULL)
        return false;
    if (vp_fails(vp_fault_otp))
        return false;
    *state = vp_video;
    return true;
}
#endif

#ifndef VP_REAL_TRANSPORT
bool is_ree(const sa_uuid* uuid) {
    return nd_bool();
}
#endif

#ifdef VP_CBMC
time_t time(time_t* t) {
    if (t)
        *t = (time_t) vp_now;
    return (time_t) vp_now;
}
int pthread_mutexattr_init(pthread_mutexattr_t* a) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { return vp_fails(vp_fault_mutex); }
int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { vp_mutex_held++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { vp_mutex_held--; return 0; }
int pthread_once(pthread_once_t* once, void (*fn)(void)) { if (*once == 0) { *once = 2; fn(); } return 0; }
int atexit(void (*fn)(void)) { return 0; }
unsigned sleep(unsigned s) { return 0; }
#else
time_t __wrap_time(time_t* t) {
    if (t)
        *t = (time_t) vp_now;
    return (time_t) vp_now;
}
int __real_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a);
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (vp_fails(vp_fault_mutex))
        return 1;
    return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { vp_mutex_held++; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { vp_mutex_held--; return 0; }
unsigned __wrap_sleep(unsigned s) { return 0; }
#endif
#ifdef VP_CBMC
int ffs(int i) {
    unsigned u = (unsigned) i;
    for (int b = 0; b < 32; b++)
        if (u & (1U << b))
            return b + 1;
    return 0;
}
#endif
#ifdef VP_CBMC
size_t strnlen(const char* s, size_t n) {
    size_t i = 0;
    while (i < n && s[i] != 0)
        i++;
    return i;
}
#endif
