/* Small helpers for the demonstrations: a session with the real trusted application library. */
#ifndef TA_H
#define TA_H
#include "ta_sa.h"
#include "sa_rights.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/evp.h>
#include <openssl/rand.h>
static sa_uuid me = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}};
static ta_client cl;
#define CHECK(c) do { if (!(c)) { printf("demo: line %d: %s does not hold\n", __LINE__, #c); exit(1); } } while (0)
#define NEED(c) do { if (!(c)) { printf("demo: line %d: set-up %s failed\n", __LINE__, #c); exit(3); } } while (0)
static void begin(void) { NEED(ta_sa_init(&cl, &me) == SA_STATUS_OK); }
static sa_rights allow(void) { sa_rights r; NEED(sa_rights_set_allow_all == 0 || (sa_rights_set_allow_all(&r), 1)); return r; }
static sa_key import_sym(const sa_rights* r, const void* b, size_t n) {
    sa_key k; sa_import_parameters_symmetric p = {r};
    NEED(ta_sa_key_import(&k, SA_KEY_FORMAT_SYMMETRIC_BYTES, b, n, &p, cl, &me) == SA_STATUS_OK);
    return k;
}
static sa_rights rights_of(sa_key k) { sa_header h; NEED(ta_sa_key_header(&h, k, cl, &me) == SA_STATUS_OK); return h.rights; }
#endif
