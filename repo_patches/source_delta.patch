From 2425795cc1dcd3f1eb4a43810fab1d00ba9e0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 1/8] fix: RSA-OAEP cipher init leaves no context and frees its
 key once when it fails late

---
 .../src/taimpl/src/ta_sa_crypto_cipher_init.c | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index 87aed5f..14cba21 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -718,7 +718,7 @@ static sa_status ta_sa_crypto_cipher_init_rsa_pkcs1v15(
 static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
         sa_crypto_cipher_context* context,
         sa_cipher_mode cipher_mode,
-        stored_key_t* stored_key,
+        stored_key_t** stored_key,
         sa_cipher_parameters_rsa_oaep* parameters,
         client_t* client,
         const sa_uuid* caller_uuid) {
@@ -729,7 +729,7 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     }
     *context = INVALID_HANDLE;
 
-    if (stored_key == NULL) {
+    if (stored_key == NULL || *stored_key == NULL) {
         ERROR("NULL stored_key");
         return SA_STATUS_NULL_PARAMETER;
     }
@@ -744,7 +744,7 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
-    const sa_header* header = stored_key_get_header(stored_key);
+    const sa_header* header = stored_key_get_header(*stored_key);
     if (header == NULL) {
         ERROR("stored_key_get_header failed");
         return SA_STATUS_NULL_PARAMETER;
@@ -774,19 +774,22 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     cipher_store_t* cipher_store = client_get_cipher_store(client);
     cipher_t* cipher = NULL;
     do {
-        status = rsa_verify_cipher(SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode, parameters, stored_key);
+        status = rsa_verify_cipher(SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode, parameters, *stored_key);
         if (status != SA_STATUS_OK) {
             ERROR("rsa_verify_cipher failed");
             break;
         }
 
         status = cipher_store_add_asymmetric_key(context, cipher_store, SA_CIPHER_ALGORITHM_RSA_OAEP, cipher_mode,
-                stored_key, caller_uuid);
+                *stored_key, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_add_asymmetric_key failed");
             break;
         }
 
+        // stored_key is now owned by cipher store
+        *stored_key = NULL;
+
         status = cipher_store_acquire_exclusive(&cipher, cipher_store, *context, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("cipher_store_acquire_exclusive failed");
@@ -804,6 +807,11 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
     if (cipher != NULL)
         cipher_store_release_exclusive(cipher_store, *context, cipher, caller_uuid);
 
+    if (status != SA_STATUS_OK && *context != INVALID_HANDLE) {
+        cipher_store_remove(cipher_store, *context, caller_uuid);
+        *context = INVALID_HANDLE;
+    }
+
     return status;
 }
 
@@ -1000,7 +1008,7 @@ sa_status ta_sa_crypto_cipher_init(
                 break;
             }
         } else if (cipher_algorithm == SA_CIPHER_ALGORITHM_RSA_OAEP) {
-            status = ta_sa_crypto_cipher_init_rsa_oaep(context, cipher_mode, stored_key,
+            status = ta_sa_crypto_cipher_init_rsa_oaep(context, cipher_mode, &stored_key,
                     (sa_cipher_parameters_rsa_oaep*) parameters, client,
                     caller_uuid);
             if (status != SA_STATUS_OK) {
-- 
2.43.0


From 3de26637ee1599e10fd3dc50f12acb6a12e2598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 2/8] fix: dh_compute_shared_secret reports a padding or
 context failure instead of returning OK

---
 reference/src/taimpl/src/internal/dh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/dh.c b/reference/src/taimpl/src/internal/dh.c
index 5342212..66d79ea 100644
--- a/reference/src/taimpl/src/internal/dh.c
+++ b/reference/src/taimpl/src/internal/dh.c
@@ -184,7 +184,7 @@ sa_status dh_compute_shared_secret(
         }
 
         evp_pkey_ctx = EVP_PKEY_CTX_new(evp_pkey, NULL);
-        if (evp_pkey == NULL) {
+        if (evp_pkey_ctx == NULL) {
             ERROR("EVP_PKEY_CTX_new failed");
             break;
         }
@@ -197,7 +197,7 @@ sa_status dh_compute_shared_secret(
 #if OPENSSL_VERSION_NUMBER >= 0x10100000
         if (EVP_PKEY_CTX_set_dh_pad(evp_pkey_ctx, 1) != 1) {
             ERROR("EVP_PKEY_CTX_set_dh_pad failed");
-            return false;
+            break;
         }
 #endif
 
-- 
2.43.0


From 1bafff111ab6f1c776bdb24bebd61298ce4f91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 3/8] fix: unwrapping an empty PKCS#7 padded key is refused
 instead of reading before the buffer

---
 reference/src/taimpl/src/internal/unwrap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index ccfdc03..9c07d01 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -156,7 +156,8 @@ sa_status unwrap_aes_ecb(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7) {
-            if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
+            if (in_length < AES_BLOCK_SIZE ||
+                    !pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
@@ -247,7 +248,8 @@ sa_status unwrap_aes_cbc(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7) {
-            if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
+            if (in_length < AES_BLOCK_SIZE ||
+                    !pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
-- 
2.43.0


From 11392774c01c1f4086ab6b7a960e9ed3fab4612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 4/8] fix: unwrap_rsa frees its buffer when the OAEP label is
 invalid

---
 reference/src/taimpl/src/internal/unwrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index 9c07d01..85ce830 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -804,7 +804,8 @@ sa_status unwrap_rsa(
             sa_unwrap_parameters_rsa_oaep* oaep_parameters = (sa_unwrap_parameters_rsa_oaep*) algorithm_parameters;
             if (oaep_parameters->label == NULL && oaep_parameters->label_length != 0) {
                 ERROR("Invalid label_length");
-                return SA_STATUS_INVALID_PARAMETER;
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
             }
 
             status = rsa_decrypt_oaep(unwrapped_key, &unwrapped_key_length, stored_key_wrapping,
-- 
2.43.0


From 17d1043ac61f713d4d82138b72718a1aee5c55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 5/8] fix: rsa_sign_pss reports a failure instead of returning
 OK without a signature

---
 reference/src/taimpl/src/internal/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 010b53e..c161209 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -467,7 +467,7 @@ sa_status rsa_sign_pss(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    sa_status status = SA_STATUS_OK;
+    sa_status status = SA_STATUS_INTERNAL_ERROR;
     EVP_MD_CTX* evp_md_ctx = NULL;
     EVP_PKEY* evp_pkey = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From 98ad522bd74108af880a5e54a431c01470b770c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 6/8] fix: freeing a wrapped key that has no ciphertext yet
 does not write through NULL

---
 reference/src/taimpl/src/internal/key_store.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 88d2535..23e0f39 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -253,8 +253,10 @@ static void wrapped_key_free(void* obj) {
 
     wrapped_key_t* wrapped_key = (wrapped_key_t*) obj;
 
-    memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
-    memory_secure_free(wrapped_key->ciphertext);
+    if (wrapped_key->ciphertext != NULL) {
+        memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
+        memory_secure_free(wrapped_key->ciphertext);
+    }
 
     memory_memset_unoptimizable(wrapped_key, 0, sizeof(wrapped_key_t));
     memory_secure_free(wrapped_key);
-- 
2.43.0


From 04411147cc523f16ce2611e216ad639b3335f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 7/8] fix: rand_bytes refuses lengths RAND_bytes cannot serve
 and treats -1 as failure

---
 reference/src/taimpl/src/porting/rand.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 7951669..45f1a7f 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -18,6 +18,7 @@
 
 #include "porting/rand.h" // NOLINT
 #include "log.h"
+#include <limits.h>
 #include <openssl/rand.h>
 
 bool rand_bytes(void* out, size_t out_length) {
@@ -26,7 +27,12 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
-    if (!RAND_bytes(out, (int) out_length)) {
+    if (out_length > INT_MAX) {
+        ERROR("Invalid out_length");
+        return false;
+    }
+
+    if (RAND_bytes(out, (int) out_length) != 1) {
         ERROR("RAND_bytes failed");
         return false;
     }
-- 
2.43.0


From 325f6f29023e4fe557d9984c831d035e4bcd624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 8/8] fix: convert_uuid requires the dashes in their places, so
 no UUID is left partly unset

---
 reference/src/taimpl/src/internal/rights.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/rights.c b/reference/src/taimpl/src/internal/rights.c
index aee54f6..02e06d1 100644
--- a/reference/src/taimpl/src/internal/rights.c
+++ b/reference/src/taimpl/src/internal/rights.c
@@ -391,12 +391,14 @@ bool convert_uuid(
     }
 
     for (size_t i = 0, j = 0; i < uuid_str_length && j < sizeof(uuid->id); i++, j++) {
-        if (uuid_str[i] == '-')
-            i++;
+        // the dashes are in fixed positions, before bytes 4, 6, 8, and 10
+        if (j == 4 || j == 6 || j == 8 || j == 10) {
+            if (uuid_str[i] != '-') {
+                ERROR("Invalid UUID");
+                return false;
+            }
 
-        if (i >= uuid_str_length) {
-            ERROR("Invalid UUID");
-            return false;
+            i++;
         }
 
         char c1 = uuid_str[i++];
-- 
2.43.0

