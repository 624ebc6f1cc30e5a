#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [dict(zip(("name","where"),m)) for m in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [dict(zip(("name","meaning","where"),s)) for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "SHA-256 and SHA-512 equal FIPS 180-4, however the data is fed in",
  "For every message of every length, the SHA-256 and SHA-512 digests equal the FIPS 180-4 digests. Feeding the same message to the incremental hashers in any sequence of pieces, and reading intermediate digests between pieces, yields exactly the digest of the data fed so far and disturbs nothing that follows.",
  ["inputs","histories"], "all messages, all ways of cutting them into update calls, all interleavings of update and intermediate-digest reads",
  "The unit tests hash a few fixed strings; padding boundaries (55/56/63/64, 111/112/127/128 bytes), chunkings and interleaved digest reads are never enumerated.",
  ["crylib/src/hash/sha256.rs","crylib/src/hash/sha512.rs","crylib/src/hash/buf_hasher.rs","crylib/src/hash.rs"],
  [("block padding and length encoding","crylib/src/hash/sha256.rs, crylib/src/hash/sha512.rs"),("partial-block buffering","crylib/src/hash/buf_hasher.rs")],
  ["Hasher::hash","BlockHasher update/finish","BufHasher::update_with/get/finish"])

p("C02", "HMAC and HKDF equal RFC 2104 / RFC 5869 for every key and output length",
  "For every key (shorter, equal to, or longer than the hash block), every message and every way of feeding the message incrementally, the MAC equals RFC 2104 HMAC over the chosen hash. HKDF-Extract and HKDF-Expand equal RFC 5869 for every salt, input, info and every output length up to 255 hash blocks.",
  ["inputs","histories"], "all keys, salts, infos, messages, chunkings, output lengths 0..=255*hash length, with SHA-256 and SHA-512",
  "Tests use a handful of RFC vectors with short keys and two output lengths; long keys, block-multiple lengths and partial last blocks are not reached.",
  ["crylib/src/hmac.rs","crylib/src/hkdf.rs"],
  [("key block preparation and inner/outer hashing","crylib/src/hmac.rs"),("block-chained expansion","crylib/src/hkdf.rs")],
  ["Hmac::auth/new/update/update_with/finish/finish_with","hkdf::extract","hkdf::expand"])

p("C03", "AES and AES-GCM sealing equal FIPS 197 / SP 800-38D for all sizes",
  "For AES-128, AES-192 and AES-256, every key, nonce, associated data and plaintext of any length (including empty and exact block multiples), the ciphertext and tag equal those of NIST SP 800-38D. The copying and the in-place forms agree, and opening what was sealed returns the plaintext.",
  ["inputs"], "all keys of the three sizes, all 96-bit nonces, all associated data and plaintext lengths",
  "Tests are a few NIST vectors; lengths that are exact multiples of the block for data and associated data independently, and the three key sizes, are not crossed.",
  ["crylib/src/aead/gcm.rs","crylib/src/aead/gcm/aes.rs","crylib/src/aead.rs"],
  [("key expansion and rounds","crylib/src/aead/gcm/aes.rs"),("counter mode and GHASH","crylib/src/aead/gcm.rs")],
  ["Gcm::<Aes*>::encrypt/encrypt_inline/decrypt/decrypt_inline","AesCipher"])

p("C04", "ChaCha20, Poly1305 and ChaCha20-Poly1305 equal RFC 8439 for all inputs",
  "For every key, nonce, starting block counter and message of any length, the keystream, the one-time authenticator (one-shot or fed incrementally) and the combined sealed output equal RFC 8439. Copying and in-place forms agree, bytes of an output buffer beyond the message are left alone, and opening what was sealed returns the plaintext.",
  ["inputs","histories"], "all keys, nonces, counters, lengths, associated data; all authenticator update sequences; extreme limb values (accumulator close to 2^130-5)",
  "Tests are the RFC vectors; carry/reduction corner cases of the authenticator and length combinations need generated extremes.",
  ["crylib/src/aead/chacha.rs","crylib/src/aead/chacha/chacha20.rs","crylib/src/aead/chacha/poly1305.rs"],
  [("block function and counter","crylib/src/aead/chacha/chacha20.rs"),("modular accumulation","crylib/src/aead/chacha/poly1305.rs"),("AEAD composition and padding","crylib/src/aead/chacha.rs")],
  ["chacha20::encrypt/encrypt_inline","Poly1305","ChaCha20Poly1305"])

p("C05", "AEAD opening rejects every modification and releases nothing on failure",
  "For every cipher the library offers, opening a message succeeds only for exactly the key, nonce, associated data, ciphertext and tag that sealing produced. Any difference in any bit, any truncation or extension, or swapped parts is reported as bad data, and a failed opening releases no decrypted data: an in-place buffer still holds exactly the input.",
  ["inputs","fault_sequences"], "all sealed messages, all single- and multi-bit modifications of any component, truncations, extensions, component swaps",
  "Tests contain at most one hand-made negative case per cipher; every bit position of tag, data, associated data and nonce must matter.",
  ["crylib/src/aead.rs","crylib/src/aead/gcm.rs","crylib/src/aead/chacha.rs"],
  [("tag recomputation before decryption","crylib/src/aead/gcm.rs, crylib/src/aead/chacha.rs")],
  ["Aead::decrypt","Aead::decrypt_inline"])

p("C06", "Unsigned big-integer arithmetic is exact",
  "For every operand value and width, addition, subtraction, multiplication, division with remainder, shifts, bitwise operations, comparisons, bit/byte accessors, resizing and byte-string and text conversions give the mathematically exact result modulo the width, with carry, borrow and overflow reported exactly. The in-place, copying, widening and overflowing forms agree with one another.",
  ["inputs"], "all operand values and all shift amounts, weighted to limb boundaries, all-ones limbs, near-equal operands and quotient-estimate corner cases",
  "Tests check a few literals per operation; carry chains and division quotient corrections occur for a vanishing share of inputs and need a directed generator and an exact reference.",
  ["crylib/src/big_int/unsigned.rs","crylib/src/big_int.rs"],
  [("limb-wise carry propagation","crylib/src/big_int/unsigned.rs"),("normalised long division","crylib/src/big_int/unsigned.rs")],
  ["UBigInt public methods and trait impls"])

p("C07", "Signed big integers behave as two's-complement integers",
  "For every operand value, the signed big integer's addition, subtraction, negation, absolute value, sign test, ordering, multiplication, division, digit count, resizing and conversions to and from unsigned values agree with two's-complement integers of that width. Ordering is total and agrees with the mathematical order of the values.",
  ["inputs"], "all pairs of operand values, weighted to sign changes, zero, minimum and maximum",
  "Tests cover a few positive literals; sign handling is decided only by pairs with mixed signs and extremes.",
  ["crylib/src/big_int/signed.rs"],
  [("two's-complement limbs over the unsigned type","crylib/src/big_int/signed.rs")],
  ["BigInt public methods and trait impls"])

p("C08", "Finite-field elements obey exact modular arithmetic and stay canonical",
  "For every field modulus and all elements, addition, subtraction, negation, doubling, multiplication (full and by a small digit), squaring, inversion, division and conversion between fields give the exact result modulo the prime, always in canonical range. Construction reduces or rejects out-of-range values as its name promises, and every in-place form agrees with its copying form.",
  ["inputs"], "all field elements of the P-256 base and scalar fields and of other primes of three and four limbs; extremes near 0, the modulus and limb boundaries",
  "Tests check literals; reductions that need a correction step, inverses and non-default widths need generated extremes and an exact reference.",
  ["crylib/src/finite_field/field_element.rs","crylib/src/finite_field.rs"],
  [("conditional reduction after add/sub","crylib/src/finite_field/field_element.rs"),("extended Euclid inverse","crylib/src/finite_field/field_element.rs")],
  ["FieldElement public methods"])

p("C09", "P-256 point arithmetic is the elliptic-curve group law, without exceptions",
  "For all points of the curve, including the point at infinity, equal points and opposite points, and all scalars from zero to the group order minus one, addition, doubling, negation, equality, affine conversion and scalar multiplication give the result of the group law. Exactly the coordinate pairs satisfying the curve equation are accepted as points.",
  ["inputs","histories"], "all points in all projective representations, all pairs (equal, opposite, infinity included), all scalars including 0, 1, 2, n-1 and values that drive the ladder through special cases",
  "Tests use the base point and two multiples; exceptional cases (doubling through addition, infinity operands, ladder ends) occur only for particular generated pairs.",
  ["crylib/src/ec/point/projective.rs","crylib/src/ec/point/affine.rs","crylib/src/ec/secp256r1.rs"],
  [("projective add/double with infinity handling","crylib/src/ec/point/projective.rs"),("Montgomery ladder","crylib/src/ec/point/projective.rs"),("curve equation check","crylib/src/ec/point/affine.rs")],
  ["ProjectivePoint and AffinePoint public methods"])

p("C10", "ECDSA accepts exactly the valid signatures and signs correctly",
  "For every private key, message and nonce, signing yields the standard ECDSA signature, and verification accepts it under the matching public key. Verification accepts a signature if and only if the standard verification equation holds with both components non-zero and in range and a valid public key; it never crashes, and any change of message, key or signature that breaks the equation is rejected.",
  ["inputs","fault_sequences"], "all keys, messages, nonces, signature pairs (including zero components, forged combinations that make intermediate points collide or vanish), all single-component changes",
  "Tests use a few fixed vectors; degenerate signatures, special scalar combinations and random forgeries are not enumerated.",
  ["crylib/src/ec/ecdsa.rs"],
  [("signing equation and retry","crylib/src/ec/ecdsa.rs"),("verification equation","crylib/src/ec/ecdsa.rs")],
  ["ecdsa::sign","ecdsa::verify_signature"])

CFG = "ClientHello built by turtls_connect, seen at write_fn"
p("T01", "ClientHello is well-formed TLS 1.3 and states exactly the configuration",
  "For every configuration the C interface allows, the first flight written to the transport is a valid sequence of handshake records holding exactly one well-formed TLS 1.3 ClientHello whose length fields all add up. It offers exactly the enabled cipher suites, groups and signature algorithms, TLS 1.3 only, the configured server name and application protocols byte for byte, a valid P-256 key share when that group is enabled, and nothing for what is disabled or unset. A configuration that cannot be expressed as such a hello (no usable cipher suite, or more than a length field holds) makes connecting fail without anything being written.",
  ["configurations","inputs"], "all cipher/group/signature flag combinations, server names and protocol lists of every length, and connection randomness",
  "There are no tests of the turtls crate's handshake at all; encoded lengths depend on the combination of optional parts and large names.",
  ["src/client_hello.rs","src/extensions.rs","src/extensions/server_name.rs","src/extensions/app_proto.rs","src/extensions/sig_algs.rs","src/extensions/key_share.rs","src/extensions/versions.rs","src/cipher_suites.rs","src/config.rs"],
  [("length precomputation and writing","src/extensions.rs"),("record splitting","src/record/write.rs")],
  ["bytes passed to write_fn"])

p("T02", "Each connection uses fresh randomness and fails closed when it is missing",
  "The client random and the key share of every connection attempt are derived from system randomness drawn for that attempt, so that independent randomness gives independent values and the key share is the public point of the drawn private key. If randomness cannot be obtained or gives no usable private key, connecting fails with the corresponding error, nothing is written to the peer, and a later attempt with working randomness succeeds.",
  ["fault_sequences","histories","inputs"], "all random streams (including all-zero, multiples of the group order, extremes) and all points at which the randomness source fails",
  "No test can make the randomness source fail or return chosen values; the existing suite does not run the handshake.",
  ["src/extensions/key_share.rs","src/client_hello.rs","src/state.rs","src/lib.rs"],
  [("key generation","src/extensions/key_share.rs"),("client random","src/client_hello.rs")],
  ["turtls_connect result, turtls_get_error, bytes passed to write_fn"])

p("T03", "Handshake keys and record protection interoperate with an RFC 8446 server",
  "For every configuration and every valid server response (either cipher suite, any server key share, random and extension order), client and server derive the same TLS 1.3 handshake traffic keys: the client accepts and reads every protected record in sequence, and everything the client sends afterwards is a correctly protected record under its own traffic key and sequence number. A server that derives its keys from a different transcript, secret or suite is rejected.",
  ["inputs","histories"], "all client/server key pairs, suites, hello contents; sequences of several protected records with any padding",
  "The only key-schedule tests are fixed vectors; agreement depends on the whole chain hello-transcript, ECDH, HKDF, nonce counter and record framing.",
  ["src/key_schedule.rs","src/aead.rs","src/extensions/key_share.rs","src/server_hello.rs","src/record/read.rs","src/record/write.rs","src/handshake.rs"],
  [("key schedule","src/key_schedule.rs, src/aead.rs"),("nonce counters","src/aead.rs"),("transcript hash","src/handshake.rs")],
  ["acceptance of protected records; alerts sent, seen at write_fn"])

p("T04", "Outcome is independent of how peer bytes are framed and delivered",
  "For a given sequence of handshake messages from the server, of any length up to 128 KiB each, the outcome and everything the client writes are the same for every way the messages are split over or packed into records, every amount of record padding, every size of protected record the protocol allows, every dummy change_cipher_spec the protocol allows, and every way the transport delivers bytes to reads and accepts bytes in writes.",
  ["schedules","inputs","histories"], "all fragmentations of messages into records of 1..2^14 bytes, all paddings, all transport read and write sizes",
  "No test drives the record layer; boundary alignments of header, length, tag and message are combinatorial.",
  ["src/record/read.rs","src/record/write.rs","src/handshake.rs"],
  [("record reassembly state","src/record/read.rs"),("handshake reassembly state","src/handshake.rs"),("partial write tracking","src/record/write.rs")],
  ["turtls_connect result, error codes, bytes passed to write_fn"])

p("T05", "Interrupted transport I/O is resumable at every point",
  "If the transport reports an error at any read or write during connecting, connecting reports the want-read or want-write error, and calling it again once the transport works continues where it stopped. The bytes written and the final outcome are exactly those of an uninterrupted run, no matter where or how often the interruption happens (sending the final alert of a failed attempt is not resumable).",
  ["fault_sequences","schedules","crash_points"], "all positions and counts of transport failures over all transport calls, with all partial transfer sizes before them",
  "Requires failing each individual transport call of a full exchange; the suite never performs one.",
  ["src/handshake.rs","src/record/read.rs","src/record/write.rs","src/lib.rs","src/error.rs"],
  [("resumable read state","src/record/read.rs, src/handshake.rs"),("resumable write state","src/record/write.rs, src/handshake.rs")],
  ["turtls_connect result, turtls_get_error, bytes passed to write_fn"])

p("T06", "No peer input can crash or hang the client",
  "For every sequence of bytes a peer sends, plaintext or correctly protected under the negotiated keys, connecting terminates without aborting the process, out-of-bounds access or endless looping, and unless it gets as far as a completely received, well-formed certificate message it returns failure with an error set. Whatever was received, the functions for querying errors, closing and freeing remain safe to call.",
  ["inputs","fault_sequences"], "all byte strings as peer output, generated as mutations (length fields, truncations, insertions, type changes, random bytes) of valid flights at every layer, encrypted or not",
  "Unit tests feed no peer input; length-field combinations that leave parser bounds are rare and structured.",
  ["src/handshake.rs","src/server_hello.rs","src/extensions.rs","src/extensions/key_share.rs","src/extensions/app_proto.rs","src/record/read.rs","src/certificates.rs","src/certificates/der.rs","src/certificates/x509.rs"],
  [("length checks in each parser","src/extensions.rs, src/server_hello.rs, src/extensions/*.rs, src/certificates/*.rs"),("buffer limits","src/record/read.rs, src/handshake.rs")],
  ["process survival, turtls_connect result"])

p("T07", "Once keys are established only authentic, in-order peer records count",
  "After the server's hello, every handshake record that is altered in any bit, replayed, reordered, dropped, protected under other keys, or sent without protection makes connecting fail with a fatal alert; it is never treated as handshake data. An altered protected record is reported as a bad-record-MAC error, and a protected record with no content type is rejected.",
  ["fault_sequences","inputs","histories"], "all bit positions of all protected records, all permutations/replays/omissions, plaintext injections of every content type at every point after the hello",
  "An attacker's interference is a quantifier over bit positions and record sequences that the tests do not contain at all.",
  ["src/record/read.rs","src/aead.rs","src/handshake.rs"],
  [("record deprotection","src/record/read.rs"),("read nonce counter","src/aead.rs")],
  ["turtls_connect result, error codes, alert bytes at write_fn"])

p("T08", "Only hellos and extensions the client offered and TLS 1.3 allows are accepted",
  "A server hello is accepted only if it really is a server hello, selects TLS 1.3, one offered cipher suite, an offered group with a full-length uncompressed key share on the curve, and carries only well-formed extensions valid there, each at most once; likewise the encrypted extensions message and the certificate message must be of that type, well-formed, and contain only extensions allowed there. Everything else ends the connection with a fatal alert that RFC 8446 allows for it.",
  ["inputs","configurations"], "all combinations of offered configuration and server choices, including off-curve, out-of-range and wrong-length key shares, missing/duplicate/unknown extensions, wrong message types and inconsistent lengths",
  "No test parses a server message; acceptance of the negative space is a quantifier over inputs.",
  ["src/server_hello.rs","src/extensions.rs","src/extensions/key_share.rs","src/extensions/versions.rs","src/cipher_suites.rs","src/handshake.rs"],
  [("server hello parsing","src/server_hello.rs"),("extension dispatch","src/extensions.rs"),("point validation","src/extensions/key_share.rs")],
  ["turtls_connect result, error codes, alert bytes at write_fn"])

p("T09", "Errors are reported exactly and each failure sends one matching alert and closes",
  "When the client detects a protocol error it sends exactly one fatal alert (protected once keys exist), closes the transport exactly once, and reports a TLS error whose code equals the alert on the wire. When the peer sends an alert, it is reported as a peer error with exactly that alert's code whatever its level (a code TLS does not define is reported as internal error), no alert is sent back, and the transport is closed; every alert code has a distinct, non-empty textual form.",
  ["inputs","fault_sequences","histories"], "all alert codes and levels from the peer at every stage, protected or not, and all locally detected errors",
  "No test reads alerts or error codes through the public interface.",
  ["src/alert.rs","src/error.rs","src/handshake.rs","src/record/write.rs","src/record/read.rs","src/lib.rs"],
  [("alert mapping","src/alert.rs"),("close paths","src/record/write.rs, src/handshake.rs"),("error recording","src/error.rs")],
  ["write_fn/close_fn calls, turtls_get_error, turtls_get_tls_error, turtls_stringify_alert"])

p("T10", "The negotiated application protocol is reported exactly",
  "After the encrypted extensions have been processed, the reported application protocol is exactly the name the server selected, nul-terminated, for names of every length from 1 to 255 bytes, and the empty string if the server selected none. A selection that is malformed, not exactly one name, or not among the protocols the client offered ends the connection with a fatal alert.",
  ["inputs","configurations","histories"], "all offered lists and server selections, all malformed encodings, consecutive connections on one object",
  "No test covers protocol negotiation; wrong terminators show only for particular length sequences.",
  ["src/extensions/app_proto.rs","src/extensions.rs","src/state.rs"],
  [("selection parsing","src/extensions/app_proto.rs")],
  ["turtls_app_proto"])

p("T11", "A closed connection object behaves like a new one",
  "After a connection attempt ended, at whatever point and for whatever reason, and the object was closed, the next attempt on the same object with a new transport stream behaves exactly like an attempt on a newly created object with the same configuration and randomness: same bytes written, same outcome, error codes and application protocol.",
  ["histories","fault_sequences"], "all sequences of attempts on one object, each ending at any stage (I/O error, peer alert, bad input, partial record), with configuration changes in between",
  "State left over from one attempt is visible only in multi-attempt histories, which no test performs.",
  ["src/lib.rs","src/state.rs","src/record/read.rs","src/record/write.rs","src/record.rs"],
  [("connection state reset","src/lib.rs"),("buffers' state","src/record/read.rs, src/record/write.rs")],
  ["bytes at write_fn, turtls_connect result, error codes, turtls_app_proto"],
  state=[("transcript, secret, app_proto, error, record buffers","per-connection state kept in the connection object","src/state.rs")])

p("T12", "Closing alerts the peer once, closes the transport once, and is always safe",
  "Closing a connection on which an attempt was started and is not yet closed writes exactly one close_notify alert record (protected once keys exist, and after the rest of a partly written record) and closes the transport exactly once; closing a connection never started, already closed, or given as a null pointer does nothing. Over any sequence of connect, close, query and free calls the transport's close function is called at most once per connection attempt and no bytes are written after it.",
  ["histories","fault_sequences"], "all sequences of API calls and connection outcomes",
  "Requires call histories; the suite never calls the C interface.",
  ["src/lib.rs","src/record/write.rs","src/state.rs"],
  [("turtls_close","src/lib.rs"),("close_raw/close","src/record/write.rs")],
  ["write_fn and close_fn calls"])

p("T13", "Certificate messages are parsed strictly: bad certificates are always refused",
  "For every certificate message under valid protection, connecting fails with a certificate or decode alert unless every entry is a structurally complete X.509 v3 certificate in DER, signed with the supported algorithm, whose signature value encodes two integers in the valid range; complete means that every mandatory field of the certificate, its to-be-signed part and its validity is there, in order, with its type, and nothing follows. Properly formed chains of up to 128 KiB, with short and long DER lengths and signature integers of every length, always pass this stage, and no certificate content crashes the client.",
  ["inputs"], "all byte strings as certificates, generated as valid certificates and as structural mutations (tags, lengths, missing fields, version, algorithm, signature integers) of them",
  "The DER and X.509 parsers have no tests; structural mutation space is combinatorial.",
  ["src/certificates.rs","src/certificates/der.rs","src/certificates/x509.rs","src/handshake.rs"],
  [("certificate list iteration","src/certificates.rs"),("DER iteration","src/certificates/der.rs"),("X.509 checks","src/certificates/x509.rs")],
  ["turtls_connect result, alert bytes at write_fn"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
