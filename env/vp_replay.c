#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <execinfo.h>
/* argv[1]: file with one unsigned decimal per line, the solver's values in program order. */
static FILE* in;
static int exhausted;
void HARNESS(void);
uint64_t nd_u64(void) {
    unsigned long long v = 0;
    if (getenv("VP_NDTRACE")) {
        void* b[6];
        int n = backtrace(b, 6);
        char** sy = backtrace_symbols(b, n);
        printf("ND");
        for (int i = 1; i < n; i++)
            printf(" %s", strrchr(sy[i], '[') ? strrchr(sy[i], '[') : sy[i]);
        printf("\n");
        free(sy);
    }
    if (!in || fscanf(in, "%llu", &v) != 1) { exhausted = 1; return 0; }
    return v;
}
#ifndef VP_HAVOC_LOG
#define VP_HAVOC_LOG 160
#endif
void vp_havoc(void* p, size_t n) {
    for (size_t i = 0; i < n; i++)
        ((uint8_t*) p)[i] = i < VP_HAVOC_LOG ? nd_u8() : 0xA5;
}
void vp_fail(const char* kind, const char* msg, const char* file, int line) {
    printf("REPLAY-FAIL %s: %s (%s:%d)\n", kind, msg, file, line);
    fflush(stdout);
    _Exit(42);
}
void vp_stop(const char* c, const char* file, int line) { printf("REPLAY-STOP assumption %s not met (%s:%d)\n", c, file, line); fflush(stdout); _Exit(3); }
void* vp_buf_at(size_t max, size_t len) {
    uint8_t* p = malloc(max);
    vp_havoc(p, max);
    return p + (max - len);
}
void* vp_buf(size_t max, size_t* len) {
    *len = nd_size(max);
    return vp_buf_at(max, *len);
}
void vp_output(void* p, size_t n) {
    if (n == 0)
        return;
    uint8_t* b = p;
    memset(b, 0xA5, n);
    b[0] = nd_u8();
    b[n - 1] = nd_u8();
    size_t i = nd_size(n - 1);
    b[i] = nd_u8();
}
int main(int argc, char** argv) {
    setvbuf(stdout, NULL, _IONBF, 0);
    if (argc > 1) in = fopen(argv[1], "r");
    HARNESS();
    printf("REPLAY-END%s\n", exhausted ? " (inputs exhausted)" : "");
    _Exit(0);
}

bool vp_hit;
