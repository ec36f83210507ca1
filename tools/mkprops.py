#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
T = "reference/src/taimpl/src/"
I = T + "internal/"
P = T + "porting/"
C = "reference/src/clientimpl/src/"
out = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "state": [{"name": n, "meaning": m} for n, m in state], "observe_at": observe, "hook_needed": None}})


p("C01", "An operation succeeds only if the key's usage flags permit it",
  "Encrypt, decrypt, MAC, sign, derive, exchange, unwrap and protected key check succeed only with a key whose rights carry the usage flag of that operation "
  "(and only on a key type and algorithm that supports it). A refused operation yields no context, key or output.",
  ["inputs", "configurations"], "every rights word, key type, curve, key size, algorithm, mode and parameter block",
  "Tests try a handful of flag/algorithm pairs; the guarantee is over all 2^64 rights words crossed with every entry point and algorithm.",
  [T + "ta_sa_crypto_cipher_init.c", T + "ta_sa_crypto_mac_init.c", T + "ta_sa_crypto_sign.c", T + "ta_sa_key_derive.c", T + "ta_sa_key_exchange.c", T + "ta_sa_key_unwrap.c",
   T + "ta_sa_crypto_mac_process_key.c", T + "ta_sa_svp_key_check.c", I + "rights.c", I + "key_type.c"],
  [("flag tests", I + "rights.c"), ("per-operation gate", T + "ta_sa_*.c")], ["status of the ta_sa_* call", "context or key handle returned"])

p("C02", "A key is usable only inside its validity window, TA list and output policy",
  "Whenever a key is used for an operation (setting up a context, signing, deriving, exchanging, unwrapping, digesting, reading its public part), the caller is on the key's list of allowed TAs, "
  "the current time lies in [not_before, not_on_or_after), and every active video output is allowed by the key's output-protection flags; otherwise the call is refused. "
  "Each time a cipher context set up earlier processes data the validity window is checked again, and for symmetric ciphers and common encryption the output policy too.",
  ["inputs", "configurations"], "every list of 32 TA identifiers, every window and clock value, every combination of output counts and SVP state",
  "Tests use a few canned rights and the real clock; boundary instants, wildcard/none identifiers and output combinations are sampled only.",
  [I + "key_store.c", I + "rights.c", T + "ta_sa_crypto_cipher_process.c", T + "ta_sa_crypto_cipher_process_last.c", T + "ta_sa_process_common_encryption.c"],
  [("checks on load", I + "key_store.c key_store_unwrap"), ("checks on processing", I + "rights.c")], ["status of key loading and of cipher processing"])

p("C03", "A child key never has rights its parent does not allow",
  "A key obtained by derivation, exchange or unwrapping never carries an output-protection permission its parent lacks; if instead the parent's only operation is unwrap and it declares child usage flags, "
  "the child carries no operation (key exchange, derive, unwrap, encrypt, decrypt, sign) outside those child flags. All other requested rights are taken over unchanged. "
  "(For the Netflix key schemes the parent is the encryption key, respectively the incoming wrapping key.)",
  ["inputs"], "every pair of parent rights and requested child rights", "Tests check a couple of flag combinations out of 2^192.",
  [I + "stored_key.c", I + "kdf.c", I + "unwrap.c", I + "ec.c", I + "dh.c", I + "netflix.c", T + "ta_sa_key_unwrap.c", T + "ta_sa_key_derive.c", T + "ta_sa_key_exchange.c"],
  [("restriction of child rights", I + "stored_key.c"), ("parent rights passed on", T + "ta_sa_key_unwrap.c")], ["rights reported by key header of the child"])

p("C04", "Sessions, keys and contexts are usable only by their owner",
  "A client handle, key, cipher or MAC context, or SVP buffer can be used, read or released only by the caller identity that created it, and only through the session it belongs to. "
  "Handles never issued, already released, or out of range are refused.",
  ["inputs", "histories"], "every handle value, caller identity and store content", "Tests use one or two identities and recent handles.",
  [I + "object_store.c", I + "client_store.c", I + "key_store.c", I + "cipher_store.c", I + "mac_store.c", I + "svp_store.c"],
  [("owner comparison", I + "object_store.c")], ["status of acquire, release and remove operations"], [("owner", "identity that created the object")])

p("C05", "Live objects never share a handle, and releases free exactly once",
  "From any reachable store state, a new object gets a handle no live object has, creation fails only when the store is full, and a released handle becomes free. "
  "An object in use by another thread is not destroyed until that use ends, and no thread's release destroys an object it did not name.",
  ["histories", "schedules"], "every occupancy of the handle pool (one inductive step covers all histories) and every switch point between two threads' store operations",
  "A test visits a few occupancy patterns and has no control over where a second thread runs.",
  [I + "slots.c", I + "object_store.c"], [("slot bitmap", I + "slots.c"), ("reference count and wait loop", I + "object_store.c")], ["handle values", "object destruction callback"],
  [("slot bitmap", "which handles are taken"), ("reference count", "uses in progress")])

p("C06", "Every call gives back what it took, on success and on every failure",
  "Whatever its arguments and whichever internal step fails, a call returns with no session, key, context or buffer still held or locked by it, no memory or crypto object leaked, nothing freed twice or used after being freed, "
  "and, if it failed, no new key or context left behind.",
  ["inputs", "fault_sequences"], "every argument value and every subset of allocation, crypto-library and key-ladder calls failing",
  "Tests never make OpenSSL, the allocator or the key ladder fail, and do not observe reference counts.",
  [T + "ta_sa_*.c", I + "*.c"], [("cleanup blocks", T + "ta_sa_*.c"), ("ownership transfer to stores", I + "cipher_store.c")], ["reference, lock and allocation balance after the call"])

p("C07", "Protected content never leaves through clear memory",
  "With a key that does not allow non-SVP use, decryption (cipher contexts and common encryption) writes only to SVP buffers, never to a clear buffer. "
  "Operations that cannot guarantee protection refuse such a key or buffer combination.",
  ["inputs"], "every rights word, algorithm, mode and buffer-type combination", "Tests try a few combinations.",
  [I + "buffer.c", I + "rights.c", T + "ta_sa_crypto_cipher_process.c", T + "ta_sa_crypto_cipher_process_last.c", T + "ta_sa_process_common_encryption.c"],
  [("clear permission", I + "rights.c rights_allowed_clear"), ("buffer verification", I + "buffer.c")], ["status and output buffer contents"])

p("C08", "Processing never reads or writes outside the caller's buffers",
  "For any length, offset and size (including values near the integer limits) a processing call touches only bytes inside the stated input and output buffers, or is refused. "
  "On success the offsets advance by exactly what was consumed and produced.",
  ["inputs"], "every buffer length, offset and byte count, all 64-bit values", "Tests use small well-formed lengths; overflow needs specific 64-bit values.",
  [I + "buffer.c", T + "ta_sa_crypto_cipher_process.c", T + "ta_sa_crypto_cipher_process_last.c", I + "symmetric.c", P + "overflow.c"],
  [("range and overflow check", I + "buffer.c"), ("checked addition", P + "overflow.c")], ["memory accessed", "offset fields"])

p("C09", "SVP buffers: only the requested ranges move, and only if they fit",
  "Writing to, copying between, and creating or releasing SVP buffers succeeds only if every requested range lies inside both buffers, and then changes exactly the requested bytes and no others; otherwise nothing is written and the call fails. "
  "Creating a buffer from invalid memory fails.",
  ["inputs"], "every offset table, length and buffer size", "Tests use small tables; overflowing offset/length pairs need specific 64-bit values.",
  [P + "svp.c", I + "svp_store.c", T + "ta_sa_svp_buffer_write.c", T + "ta_sa_svp_buffer_copy.c", T + "ta_sa_svp_buffer_create.c"],
  [("range checks", P + "svp.c"), ("store wrapper", I + "svp_store.c")], ["destination bytes", "status"])

p("C10", "Common encryption decrypts exactly the right bytes with the right counter",
  "For every sample layout (subsamples, crypt/skip pattern, counter near its 64-bit wrap) each encrypted byte is decrypted with the keystream position or chaining state its scheme prescribes, clear and skipped bytes pass through unchanged, and nothing outside the sample is touched. "
  "Malformed layouts are refused without hanging.",
  ["inputs"], "every subsample table, pattern, IV and buffer size within the stated bounds", "Tests cover a few layouts; wrap-around and unaligned sub-block residues are rare combinations.",
  [I + "cenc.c", T + "ta_sa_process_common_encryption.c"], [("sample walk", I + "cenc.c"), ("counter roll-over", I + "cenc.c")], ["output bytes versus reference model", "status"])

p("C11", "A failed internal step is never reported as success",
  "If any cryptographic, allocation, key-ladder or random-number step that an operation depends on fails, the operation does not return success. "
  "A success status therefore always means that the complete output was produced.",
  ["fault_sequences", "inputs"], "every single or combined failure of the environment's calls", "Tests never inject failures in OpenSSL, the allocator or the random source.",
  [I + "rsa.c", I + "ec.c", I + "dh.c", I + "cenc.c", I + "digest.c", I + "hmac_context.c", I + "cmac_context.c", I + "symmetric.c", P + "rand.c"],
  [("status propagation", I + "*.c")], ["status versus completion of the underlying primitives"])

p("C12", "No message from the normal world can corrupt the trusted application",
  "For every command identifier, parameter-type combination, parameter size and parameter content sent by a client, the trusted application's command handler accesses only the memory the message describes and either performs the command or returns an error.",
  ["inputs"], "every command, parameter type word, size and content", "Tests send well-formed messages through the client library only.",
  [I + "ta.c"], [("parameter checks", I + "ta.c")], ["memory accesses of the command handler", "status"])

p("C13", "Shared parameters are read once, so a racing client cannot change checked values",
  "While a command is processed, a client that keeps rewriting the shared parameter structures cannot make the trusted application act on a value different from the one it checked.",
  ["schedules", "inputs"], "every modification of shared memory between any two accesses", "Tests have no concurrent writer.",
  [I + "ta.c"], [("copying parameters before use", I + "ta.c")], ["arguments reaching the implementation"])

p("C14", "Exported keys come back identical or not at all",
  "Only a cacheable key can be exported; importing an exported container yields a key with the same bytes, type, size and rights, and a container altered in any bit or presented truncated or extended is refused. "
  "Malformed containers never cause out-of-bounds access.",
  ["inputs"], "every key, mixin and altered container within the stated sizes", "Tests flip a few bits; the guarantee is over every alteration.",
  [I + "key_store.c", T + "ta_sa_key_export.c", T + "ta_sa_key_import.c"], [("MAC check before use", I + "key_store.c"), ("header validation", I + "key_store.c")], ["import status", "imported header and bytes"])

p("C15", "SOC key containers are parsed safely and accepted only if authentic",
  "For any bytes presented as a SOC key container, parsing stays inside its buffers, frees everything exactly once, and imports a key only if every mandatory field has its prescribed form and the container authenticates under the device key ladder.",
  ["inputs"], "every field presence, type, length and content", "Tests present well-formed containers and a few corruptions.",
  [I + "soc_key_container.c"], [("field parsing and authentication", I + "soc_key_container.c")], ["memory accesses", "import status"])

p("C16", "Type-J containers are parsed safely and accepted only with a valid MAC",
  "For any bytes presented as a Type-J container, parsing and unwrapping stay inside their buffers, free everything exactly once, and import a key only if the container's MAC verifies under the given MAC key and every mandatory field has its prescribed form.",
  ["inputs"], "every field presence, type, length and content", "Tests present well-formed containers and a few corruptions.",
  [I + "typej.c"], [("field parsing, MAC and content-key unwrapping", I + "typej.c")], ["memory accesses", "import status"])

p("C17", "Container usage fields grant exactly the documented rights",
  "The usage, content-rights, cacheability, validity and TA-list fields of an imported container translate to exactly the rights the format defines for them, independent of their order; unknown values are refused and nothing is granted by default.",
  ["inputs"], "every key usage value, rights list, cacheable flag and validity interval", "Tests use a few canned claims.",
  [I + "typej.c", I + "soc_key_container.c", I + "rights.c"], [("usage mapping", I + "rights.c"), ("claims mapping", I + "typej.c, soc_key_container.c")], ["rights of the imported key"])

p("C18", "Base64 and JSON primitives decode correctly and within bounds",
  "Base64 and base64url decoding returns exactly the bytes the text encodes or refuses the text, and no decoder or JSON accessor ever reads or writes outside its buffers or frees anything twice, for any text.",
  ["inputs"], "every text up to the stated length", "Tests decode a few valid strings.",
  [I + "json.c"], [("decoder", I + "json.c")], ["decoded bytes", "memory accesses"])

p("C19", "Padding is accepted exactly when it is valid PKCS#7",
  "Padding added by the library is removed exactly, and a block is accepted if and only if its last byte n is 1..16 and its last n bytes all equal n; checking never reads outside the final block.",
  ["inputs"], "all 2^128 blocks", "Tests check a few blocks.", [I + "pad.c"], [("pad check and apply", I + "pad.c")], ["accept/refuse and pad length"])

p("C20", "Secret comparison and clearing primitives are exact",
  "The constant-time comparison reports equality if and only if all bytes are equal, and performs the same accesses for every content; the clearing primitive sets every byte of its range; allocation wrappers and overflow-checked addition are exact.",
  ["inputs"], "every content and length up to the stated bound; all 64-bit operands", "Tests compare a few buffers.",
  [P + "memory.c", P + "overflow.c"], [("compare, clear, checked add", P + "memory.c, overflow.c")], ["results", "accesses"])

p("C21", "Only keys of a supported type and size ever enter the key store",
  "Every way of creating a key (generate, import, derive, exchange, unwrap, container import) accepts exactly the documented type/size/curve combinations, records the true type and size, and never stores fewer or more key bytes than the size says for symmetric keys.",
  ["inputs"], "every type, curve, size and length, all 64-bit values", "Tests use the documented sizes and a few wrong ones.",
  [I + "key_type.c", I + "stored_key.c", I + "symmetric.c", I + "unwrap.c", T + "ta_sa_key_generate.c", T + "ta_sa_key_import.c"],
  [("type/size tables", I + "key_type.c"), ("creation paths", I + "*.c")], ["header and length of stored keys"])

p("C22", "Key derivation feeds the hash exactly the standard's input and length",
  "HKDF, ANSI X9.63, concatenation KDF and CMAC KDF compute, for every length of key, salt, info and output, the chain of hash inputs (including block counters) their standards prescribe and output exactly the requested bytes; inputs beyond the standard's limit are refused.",
  ["inputs"], "every length within the stated bounds, hash treated as an arbitrary function", "Tests check a few vectors.",
  [I + "kdf.c", I + "netflix.c", I + "hmac_context.c"], [("derivation loops", I + "kdf.c")], ["derived key bytes", "hash inputs"])

p("C23", "Output lengths: ask, too small, exact",
  "For every operation with an output buffer, a null buffer only reports the required length, a buffer that is too small is refused, and otherwise at most the stated capacity is written and the returned length is the number of bytes produced.",
  ["inputs"], "every capacity value and key size", "Tests query a few sizes.",
  [T + "ta_sa_crypto_sign.c", T + "ta_sa_crypto_mac_compute.c", T + "ta_sa_key_export.c", T + "ta_sa_key_get_public.c", T + "ta_sa_key_digest.c", T + "ta_sa_get_name.c", T + "ta_sa_crypto_cipher_process.c", T + "ta_sa_crypto_cipher_process_last.c"],
  [("length protocol", T + "ta_sa_*.c")], ["bytes written", "returned length", "status"])

p("C24", "Key material is erased before its memory is given back",
  "Every heap buffer that has held key bytes, derived secrets or decrypted key containers is overwritten before it is freed, on success and failure paths alike.",
  ["inputs", "fault_sequences"], "every path including failures", "Tests cannot see freed memory.",
  [I + "stored_key.c", I + "kdf.c", I + "unwrap.c", I + "key_store.c", I + "symmetric.c", I + "ec.c", I + "dh.c", I + "netflix.c", I + "soc_key_container.c", I + "typej.c"],
  [("clear before free", I + "*.c")], ["contents of memory at free"])

p("C25", "Contexts follow their life cycle",
  "After a MAC has been computed or a cipher's last block processed the context yields no further output as if fresh; parameters can be updated only where the algorithm allows; and an operation of one kind is refused on a context of another algorithm, mode or key type.",
  ["inputs", "histories"], "every algorithm, mode and order of up to three calls", "Tests run the usual order.",
  [T + "ta_sa_crypto_mac_compute.c", T + "ta_sa_crypto_mac_process.c", T + "ta_sa_crypto_cipher_process_last.c", T + "ta_sa_crypto_cipher_update_iv.c", I + "hmac_context.c", I + "cmac_context.c", I + "symmetric.c"],
  [("done flags and mode checks", I + "hmac_context.c, cmac_context.c")], ["status", "primitive calls"])

p("C26", "Random output is either complete or refused",
  "A successful random-bytes request means the generator filled the whole requested buffer, for every length, and a generator failure is reported as failure.",
  ["inputs", "fault_sequences"], "every length (64-bit) and generator result", "Tests never make the generator fail or ask for huge lengths.",
  [P + "rand.c", T + "ta_sa_crypto_random.c"], [("return-value and length handling", P + "rand.c")], ["status versus bytes filled"])

p("C27", "The client library forwards every request faithfully",
  "Each client API call delivers to the trusted application exactly the algorithm, handles, parameters and buffers the caller gave, returns exactly what the trusted application answered, touches only the caller's buffers and releases all shared memory it allocated.",
  ["inputs", "fault_sequences"], "every argument value and every answer of the trusted application", "Tests see only end-to-end success for usual values.",
  [C + "*.c", C + "porting/ta_client.c"], [("marshalling", C + "sa_*.c")], ["command parameters", "returned values", "shared-memory balance"])

p("C28", "Identifier, digest and rights helpers are exact",
  "Textual TA identifiers convert to exactly the bytes they denote or are refused, digest names, lengths and mechanisms agree with their algorithm for every value, and the allow-all helper grants exactly the documented rights.",
  ["inputs"], "every text of the identifier length; every enumerator value", "Tests convert a few values.",
  [I + "rights.c", "reference/src/util/src/digest_util.c", "reference/src/util/src/sa_rights.c"], [("conversions", I + "rights.c, util/src")], ["results"])

p("C29", "SVP content checks answer yes only on a true match",
  "Checking SVP content against a digest, or a decrypted SVP block against an expected value, succeeds only if the digest or decrypted bytes of exactly the named range equal the expectation in full.",
  ["inputs"], "every range, expectation and decryption result", "Tests compare one matching and one non-matching case.",
  [P + "svp.c", T + "ta_sa_svp_buffer_check.c", T + "ta_sa_svp_key_check.c", I + "svp_store.c"], [("comparison", P + "svp.c")], ["status versus equality"])
with open("/verif/properties.jsonl", "w") as f:
    for o in out:
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
