/* Environment model shared by the harnesses: ghost state read by the assertions. */
#ifndef VP_ENV_H
#define VP_ENV_H
#include "vp.h"
#include "sa_types.h"
#include "porting/video_output.h"

/* fault model: when set, the named class of environment call may fail at any call */
extern bool vp_fault_ssl;   /* OpenSSL calls */
extern bool vp_fault_alloc; /* memory_*_alloc / OpenSSL object allocation */
extern bool vp_fault_otp;   /* key-ladder / OTP operations, rand_bytes, video_output_poll */
extern bool vp_fault_mutex; /* mutex initialisation */

/* clock and outputs: fixed but arbitrary during a harness */
extern uint64_t vp_now;
extern video_output_state_t vp_video;

/* allocation ghost */
extern long vp_live_allocs;  /* memory_*_alloc minus frees */
extern long vp_live_ssl;     /* OpenSSL objects allocated minus freed */
extern int vp_mutex_held;    /* locks minus unlocks */

/* event counters for the cipher/mac/sign/derive primitives */
extern unsigned vp_ev_cipher_init, vp_ev_cipher_update, vp_ev_cipher_final;
extern unsigned vp_ev_unwrap_aes, vp_ev_gcm_ok;
extern unsigned vp_ev_mac_init, vp_ev_mac_update, vp_ev_mac_final;
extern unsigned vp_ev_pkey_sign, vp_ev_pkey_derive, vp_ev_pkey_decrypt;
/* env_store.c: compact handle store */
extern int vp_store_refs, vp_store_live;
extern bool vp_fault_store;
/* env_ssl_pkey.c */
extern int vp_pkey_bits, vp_pkey_nid, vp_peer_id_any, vp_pub_len;
extern size_t vp_pkcs8_len;
extern bool vp_pkcs8_bad;
extern unsigned vp_ev_digest_update, vp_ev_digest_final;
extern const void* vp_mac_key_seen;
extern size_t vp_mac_key_len_seen;
#endif
