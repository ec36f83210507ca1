"""Harness table: which real sources are encoded, which are replaced by an environment model, and the bounds."""
ASSUMPTIONS = []
HARNESSES = []
PORTING = ["porting/memory.c", "porting/rand.c", "porting/otp.c", "porting/init.c", "porting/video_output.c", "porting/transport.c", "util/src/log.c",
           "util/src/pkcs12.c", "util/src/pkcs8.c"]
STORE = ["internal/object_store.c", "internal/slots.c"]
ENV = ["env_sys.c", "env_otp.c", "env_ssl_cipher.c", "env_ssl_pkey.c"]

def H(name, props, file, **kw):
    d = {"name": name, "props": props.split(), "file": file, "unwind": 34, "env": ENV, "replaced": PORTING}
    d.update(kw)
    HARNESSES.append(d)

def K(name, props, file, **kw):
    """session-level harness over the compact handle store and the key-store contract"""
    H(name, props, file, replaced=PORTING + STORE + ["internal/key_store.c"], env=ENV + ["env_store.c", "env_keystore.c"], **kw)

def S(name, props, file, **kw):
    """session-level harness over the compact handle store"""
    H(name, props, file, replaced=PORTING + STORE, env=ENV + ["env_store.c"], **kw)

KT = {"sym": (1, ["VP_SYM_SIZE=16"]), "sym32": (1, ["VP_SYM_SIZE=32"]), "ec": (2, ["INMAX=140"]), "rsa": (4, ["CAPMAX=140", "INMAX=140"]), "dh": (8, [])}
OPS = {"sign": (1, "ec rsa sym"), "mac_init": (2, "sym ec"), "cipher_init": (3, "sym sym32 rsa ec"), "get_public": (4, "ec rsa dh"), "digest": (5, "sym rsa"), "header": (6, "sym ec"),
       "export": (7, "sym"), "release": (8, "sym"), "derive": (9, "sym"), "exchange": (10, "ec dh"), "unwrap": (11, "sym sym32 rsa ec"), "nflxdh": (12, "dh")}
EXTRA = {"export": ["CAPMAX=800"], "derive": ["SECOND=32", "VP_SLOTS=4"], "nflxdh": ["SECOND=16", "VP_SLOTS=6"]}
NEVER = "op_sign_sym op_mac_init_ec op_digest_rsa".split()
# fault instances of the big operations are split by algorithm
DER = {"root": "0", "hkdf": "1", "concat": "2", "x963": "3", "cmac": "4", "netflix": "5", "common": "6"}
UNW = {"sym": {"ecb": 0, "ecbp": 1, "cbc": 2, "cbcp": 3, "ctr": 4, "gcm": 5}, "sym32": {"chacha": 9, "poly": 10, "ecb": 0}, "rsa": {"pkcs1": 6, "oaep": 7}, "ec": {"elgamal": 8}}
for nm, (op, kts) in OPS.items():
    for kt in kts.split():
        n = "op_%s_%s" % (nm, kt)
        w = {"derive": 60, "unwrap": 50, "nflxdh": 40}.get(nm, 10)
        base = ["OP=%d" % op, "TYPES=%d" % KT[kt][0]] + KT[kt][1] + EXTRA.get(nm, [])
        kid = " C03" if nm in ("derive", "exchange", "unwrap", "nflxdh") else ""
        K(n, "C01 C23" + kid + (" C21" if kid or nm == "header" else ""), "h_ops.c", defs=base + ["FAULTS=0"] + (["NEVER"] if n in NEVER else []), mem=10, weight=w)
        if n in NEVER:
            continue
        # faults: every environment call may fail; afterwards the session is closed
        split = {"": None}
        if nm == "derive":
            split = {"_" + a: v for a, v in DER.items()}
        if nm == "unwrap":
            split = {"_" + a: v for a, v in UNW[kt].items()}
        for a, v in split.items():
            K(n + a + "_faults", "C06 C11", "h_ops.c", defs=base + ["FAULTS=1", "VP_CLOSE"] + (["ALG=%s" % v] if v is not None else []), safety="C06", mem=12, object_bits=12, weight=w)
        # arbitrary caller and handles
        K(n + "_who", "C02 C04", "h_ops.c", defs=base + ["FAULTS=0", "SAME=0", "VP_KEEP_REMOVED"], mem=12, weight=w)
# the real key store
KS = dict(replaced=PORTING + STORE, env=["env_sys.c", "env_otp_ideal.c", "env_store.c"],
          unwindset=["eq.0:800", "eqn.0:50", "cpn.0:50", "bytes_eq.0:1200", "skcopy.0:50", "otp_wrap_aes_cbc.0:50", "otp_wrap_aes_cbc.1:50", "otp_unwrap_aes_cbc.0:50", "otp_unwrap_aes_cbc.1:50", "otp_unwrap_aes_cbc.2:50", "otp_unwrap_aes_cbc.3:50", "otp_unwrap_aes_cbc.4:50"])
DH16 = (r"(#\s*define\s+DH_MAX_MOD_SIZE\s+)512\b", r"\g<1>16")
TA2 = (r"(#\s*define\s+MAX_NUM_ALLOWED_TA_IDS\s+)32\b", r"\g<1>2")
KL = dict(KS, replaced=PORTING + STORE + ["internal/stored_key.c"], env=["env_sys.c", "env_otp.c", "env_store.c", "env_stored_key.c"])
H("ks_load", "C02 C14", "h_ks.c", **KL, defs=["OP=1", "NOIDEAL", "SAME=1"], headers={"client/include/sa_types.h": [DH16]})
H("ks_load_who", "C02 C04", "h_ks.c", **KL, defs=["OP=1", "NOIDEAL", "SAME=0", "VP_SLOTS=3"], headers={"client/include/sa_types.h": [DH16, TA2]})
H("ks_load_faults", "C06 C11", "h_ks.c", **KL, defs=["OP=1", "NOIDEAL", "SAME=1", "FAULTS=1"], headers={"client/include/sa_types.h": [DH16, TA2]}, safety="C06")
H("ks_store_faults", "C06 C11", "h_ks.c", **KS, defs=["OP=4", "FAULTS=1"], headers={"client/include/sa_types.h": [DH16, TA2]}, safety="C06")
H("ks_header_who", "C04 C14"+" C21", "h_ks.c", **KS, defs=["OP=3", "VP_SLOTS=3"], headers={"client/include/sa_types.h": [DH16, TA2]})
KH = {"client/include/sa_types.h": [DH16, TA2]}
KS2 = dict(KS, havoc_log=400, flags=["--max-field-sensitivity-array-size", "400"], replaced=KS["replaced"] + ["internal/stored_key.c"], env=KS["env"] + ["env_stored_key.c"])
for _n, _d in () and (("sym16", ["KSIZE=16"]), ("sym20", ["KSIZE=20"]), ("ec", ["KSIZE=32", "ECKEY"])):
    for _m in (0, 1):
        H("ks_roundtrip_%s_mixin%d" % (_n, _m), "C14", "h_ks.c", **KS2, defs=["OP=2", "VP_SLOTS=3", "MIXIN=%d" % _m] + _d, headers=KH)
#H("ks_altered", "C14", "h_ks.c", **KS2, defs=["OP=2", "VP_SLOTS=3", "ALTERED", "CTLEN", "MIXIN=1"], headers=KH)
#H("ks_altered_length", "C14", "h_ks.c", **KS2, defs=["OP=2", "VP_SLOTS=3", "ALTERED", "EXTRA=20", "MIXIN=1"], headers=KH)
#H("ks_any_container", "C14 C06", "h_ks.c", **KS2, defs=["OP=5", "VP_SLOTS=3"], headers=KH, safety="C14 C06")
H("ks_export", "C14 C23", "h_ks.c", **KS2, defs=["OP=6", "VP_SLOTS=3"], headers=KH, safety="C14")
H("ks_export_faults", "C06 C11", "h_ks.c", **KL, defs=["NOIDEAL", "OP=6", "FAULTS=1", "VP_SLOTS=3"], headers=KH, safety="C06")
# leaf helpers
def L(name, props, op, real=(), **kw):
    kw.setdefault("defs", [])
    kw["defs"] = kw["defs"] + ["OP=%d" % op] + ["VP_REAL_" + r for r in real]
    rep = ["porting/otp.c", "porting/init.c", "porting/transport.c", "porting/video_output.c", "util/src/log.c"]
    rep += [] if "MEMORY" in real else ["porting/memory.c"]
    rep += [] if "RAND" in real else ["porting/rand.c"]
    H(name, props, "h_leaf.c", replaced=rep, env=["env_sys.c"], headers={}, **kw)

L("leaf_pad", "C19", 1, safety="C19")
L("leaf_memory", "C20", 2, ["MEMORY"], safety="C20", unwind=42, instrument=["--branch", "vp_branch"], trace_pc=["porting/memory.c"])
L("leaf_random", "C26 C11", 3, ["RAND"])
L("leaf_uuid", "C28 C17", 4, safety="C28 C17", unwind=42)
L("leaf_digest_rights", "C28", 5, safety="C28", unwind=66)
LEVEL_NOTES = {}
NOT_APPLICABLE = {}
