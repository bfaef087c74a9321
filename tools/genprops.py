#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "ECDSA signatures are valid, canonical and carry the right recovery byte",
  "For every private key in [1, n-1] and every 32-byte message hash on secp256k1 and secp256r1, signing returns 64 bytes r||s that any standard ECDSA verifier accepts for exactly that key and hash, and a byte v that is the parity of the y coordinate of the signature's random point. "
  "s is in the lower half of the order, and r and s each encode as a 32-byte DER integer without padding (top bit clear, not both first byte zero and second byte's top bit clear). "
  "A message that is not 32 bytes or a key outside [1, n-1] or not of 32 bytes is refused with its own error code and no signature.",
  ["inputs"], "every private key, hash and source of randomness, on both curves",
  "The tests sign a handful of fixed messages on one curve and only verify with the same library; r, s and v over the whole range of keys, hashes and nonces (r or s just above and below n/2, short values, hashes above n) are never compared with an independent verifier.",
  ["ecdsa.go", "utils.go", "eccset.go", "secp256k1.go"],
  [("signing loop with canonical filter", "ecdsa.go: sign; utils.go: signGeneric, signecdsa"), ("dispatch and error codes", "eccset.go: Signature")],
  ["owcrypt.Signature result triple"])

p("C02", "ECDSA verification accepts exactly the valid signatures",
  "On secp256k1 and secp256r1, verification succeeds if and only if the public key is 64 bytes of a curve point, the hash is 32 bytes, the signature is 64 bytes with r and s in [1, n-1], and the standard ECDSA equation holds. "
  "Both s and n-s are accepted, and every malformed key, hash or signature is refused without a crash.",
  ["inputs"], "every (public key, hash, signature) triple, valid, mutated or crafted (r = x - n, hash above n, off-curve keys, the point at infinity)",
  "The tests verify one genuine signature per run; no test tries a crafted or mutated one against an independent decision.",
  ["ecdsa.go", "utils.go", "eccset.go", "secp256k1.go", "secp256r1.go"],
  [("verification equation and range checks", "ecdsa.go: verify; utils.go: verifyesdsa, verifyGeneric"), ("dispatch", "eccset.go: Verify")])

p("C03", "Public key recovery returns exactly the signer's key",
  "For every genuine signature on secp256k1, secp256r1 and SM2 with its recovery byte v appended, recovery from the signature and the signed hash returns exactly the signer's 64-byte public key. "
  "For any other 65-byte input, either recovery fails or the recovered key verifies the signature for that hash and the other recovery byte gives a different key or fails.",
  ["inputs"], "every signature of every key, and crafted signatures with r or s out of range, non-residue x, v above 1, wrong lengths",
  "No test recovers a key for SM2 or checks a failing input; the secp256k1 sample is a single signature.",
  ["eccset.go", "ecdsa.go", "sm2_std.go"],
  [("recovery", "eccset.go: RecoverPubkey; secp256k1.go: secp256k1_recover_public; secp256r1.go: secp256r1_recover_public; sm2_std.go: sm2_std_recover_public")])

p("C04", "SM2 signatures follow GB/T 32918 and bind key, message and identity",
  "For every SM2 key, signing a message with an identity produces a 64-byte signature that satisfies the SM2 verification equation for the digest of the identity, curve, public key and message; with no identity the 32-byte message itself is the digest. "
  "Verification accepts exactly the 64-byte signatures with r and s in [1, n-1], r+s not 0 mod n, a public key on the curve, and a satisfied equation, so any change of key, identity, message or signature is refused. "
  "The byte v is the parity of y of the random point.",
  ["inputs"], "every key (including 1, n-2 and the illegal n-1), identity of 0 to 8191 bytes, message and signature",
  "There is no stable test of SM2 signing with an independent verifier, and none with crafted signatures or identities.",
  ["sm2_std.go", "eccset.go", "sm3/sm3.go"],
  [("signature and verification", "sm2_std.go: sm2_std_sign, sm2_std_verify"), ("digest of the identity", "sm2_std.go: ZA, msgHash"), ("dispatch", "eccset.go: Signature, Verify")])

p("C05", "SM2 encryption round-trips, matches the standard and authenticates",
  "For every SM2 key pair and every non-empty plaintext, decrypting an encryption returns the plaintext, the ciphertext is 0x04||C1||C3||C2 as the standard defines so that an independent implementation can decrypt it, and this library decrypts what an independent implementation encrypted. "
  "Every modification of a ciphertext, its truncation, extension or decryption with another key fails with an error code and no plaintext. "
  "Illegal public or private keys are refused with their own codes.",
  ["inputs"], "every key, plaintext length from 1 to many kilobytes, and every single-byte change of a ciphertext",
  "The tests do not encrypt with SM2 at all in the stable set; tampering and interoperability are over all inputs.",
  ["sm2_std.go", "eccset.go"],
  [("encryption, decryption and key derivation", "sm2_std.go: sm2_std_encrypt, sm2_std_decrypt, kdf"), ("dispatch", "eccset.go: Encryption, Decryption")])

p("C06", "SM2 key agreement gives both parties the standard's shared key",
  "For all static and ephemeral key pairs, non-empty identities and key lengths, both parties of the SM2 key agreement (ordinary and with the responder's randomness supplied) compute the same key, which is the standard's, and the confirmation values of both directions are the standard's and are accepted. "
  "If any identity, static or ephemeral public key or confirmation value differs between the two sides, the confirmation fails and no key is returned by the step that detects it. "
  "Public keys that are not curve points and illegal parameters are refused with an error code and no output.",
  ["inputs", "histories"], "every run of the protocol: keys, identities of 1 to 8191 bytes, key lengths from 1 up to thousands of bytes, and a change of any one exchanged value",
  "The protocol is a multi-step history; no stable test runs it, and agreement under tampering is a property of all histories.",
  ["sm2_std.go", "eccset.go"],
  [("protocol steps", "sm2_std.go: sm2_std_ka_initiator_step2, sm2_std_ka_responder_step1, sm2_std_ka_responder_step2, ka_kdf, ka_check"), ("dispatch", "eccset.go: KeyAgreement_*")])

p("C07", "Public keys are the standard function of the private key",
  "For every legal private key of each of the ten key types, the derived public key equals the one that an independent implementation of the standard derives, in the documented encoding and length. "
  "Private keys that the scheme does not allow (zero, at or above the order, wrong length) are refused with an error code and no public key; for the three short-Weierstrass types the code is the illegal-private-key code.",
  ["inputs"], "every private key of every type, including 1, n-1, powers of two, long runs of zero or one bits",
  "Tests derive one or two keys of some types; errors in windowed or table-driven multiplication show only for particular digit patterns.",
  ["eccset.go", "ecdsa.go", "secp256k1.go", "sm2_std.go", "eddsa/ed25519.go", "eddsa/x25519.go", "eddsa/curve25519.go", "eddsa/curve25519_sha256.go", "bls12_381/bls12-381.go", "pasta/crypto.go"],
  [("dispatch", "eccset.go: GenPubkey"), ("base point multiplication of each curve", "secp256k1.go: ScalarBaseMult; sm2_std.go; eddsa/edwards25519: GeScalarMultBase; bls12_381/bls/g1.go: MulScalar; pasta/crypto.go: GeneratePubkey")])

p("C08", "Point arithmetic on the short-Weierstrass curves is the group law",
  "On secp256k1, secp256r1, SM2 and Pasta, adding points, multiplying a point or the base point by a scalar, and multiplying the base point and adding compute exactly the group operation, for all points including equal, opposite and identity operands and all scalars including zero and values at or above the order. "
  "The point at infinity as a result is reported as such (failure, or the infinity flag where there is one) and never as a coordinate pair. "
  "Operands that are not encodings of points on the curve are refused.",
  ["inputs"], "every pair of points and every scalar, with the exceptional cases P=Q, P=-Q, identity, x=0, and accepted operand encodings of 33, 64 and 65 bytes",
  "Existing tests multiply one secp256k1 point; exceptional cases of projective formulas appear only for special operands.",
  ["eccset.go", "ecdsa.go", "secp256k1.go", "secp256r1.go", "sm2_std.go", "pasta/crypto.go"],
  [("dispatch", "eccset.go: Point_mul, Point_mulBaseG, Point_mulBaseG_add, Point_add"), ("Jacobian arithmetic", "secp256k1.go: addJacobian, doubleJacobian, ScalarMult; sm2_std.go: sm2_stdPointAdd, sm2_stdPointDouble; pasta/crypto.go: GroupAdd")])

p("C09", "Point compression and decompression are inverse and exact",
  "On secp256k1, secp256r1, SM2 and Pasta, compressing a point gives its 33-byte standard encoding and decompressing it gives back exactly the point. "
  "Decompression returns the unique point with the encoded x coordinate and parity when one exists, and fails for every other input: x not below the field prime, x not on the curve, wrong prefix or wrong length. "
  "The pasta package's point objects compress, decompress, and are read from and written to bytes with the same results.",
  ["inputs"], "every point and every 33-byte string",
  "The tests decompress one or two points; half of all x coordinates are not on the curve and no test tries one.",
  ["eccset.go", "ecdsa.go", "sm2_std.go", "pasta/crypto.go"],
  [("dispatch", "eccset.go: PointCompress, PointDecompress"), ("square roots", "secp256k1.go: secp256k1_decompress; secp256r1.go: secp256r1_decompress; sm2_std.go: sm2_std_decompress; pasta/pasta.go: PointDecompress")])

p("C10", "Signing randomness is fresh, full-range and never repeated",
  "The secret nonce of every randomised operation (ECDSA, SM2 signing, encryption and key agreement, raw-scalar Ed25519, X25519 and Pasta signing) depends on the system's randomness, is spread over the whole scalar range without bias in its leading or trailing bits, and is not repeated between operations. "
  "For ECDSA and SM2 signing, raw-scalar Ed25519 and X25519 the nonce also depends on the message (and, except for raw-scalar Ed25519, on the key), so that a random source that repeats an earlier output (a restored snapshot) does not give two messages the same nonce. "
  "Deterministic schemes (standard Ed25519, CURVE25519 with SHA-256, BLS) give the same signature every time.",
  ["inputs", "histories", "fault_sequences"], "every sequence of operations and every random source: healthy, short-reading, repeating",
  "A biased or repeated nonce leaves every single signature valid; only the distribution over many operations, with the nonce recovered from the known key, shows it.",
  ["utils.go", "sm2_std.go", "eddsa/ed25519.go", "eddsa/x25519.go", "pasta/pasta.go"],
  [("nonce generation", "utils.go: signecdsa, randFieldElement; sm2_std.go: sm2_std_sign, sm2_std_encrypt, key agreement; eddsa/ed25519.go: ED25519_sign; eddsa/x25519.go: X25519_sign; pasta/pasta.go: Sign")],
  ["signatures made with a known private key, from which the nonce is recovered"])

p("C11", "Standard Ed25519 agrees with RFC 8032 on every input",
  "With the standard Ed25519 type, the public key and the signature of every 32-byte seed and every message are byte for byte those of RFC 8032. "
  "Verification of any public key, message and signature gives the same decision as the standard verifier that the Go standard library implements, including non-canonical S, non-canonical or small-order points and malformed lengths.",
  ["inputs"], "every seed, message of any length, and every crafted signature",
  "The tests use fixed samples; agreement on crafted and malformed signatures is over all inputs.",
  ["eddsa/curve25519.go", "eddsa/edwards25519/edwards25519.go", "eccset.go"],
  [("signing and verification", "eddsa/curve25519.go: CURVE25519_sign, CURVE25519_verify"), ("group arithmetic", "eddsa/edwards25519/edwards25519.go")])

p("C12", "Raw-scalar Ed25519 keys, signatures and point operations are consistent",
  "With the raw-scalar Ed25519 type, the public key of any 32-byte scalar is the encoding of the scalar modulo the group order times the base point, and every signature made with the scalar is accepted under that key by a standard Ed25519 verifier; verification agrees with the standard verifier on every input. "
  "Point addition and base point multiply-and-add compute the Edwards group operation for every decodable operand and refuse undecodable ones, so that adding a scalar to a private key and the corresponding point to its public key gives a matching key pair.",
  ["inputs"], "every 32-byte scalar (below the order, above it, with the top bit set) and every point encoding",
  "Tests use two fixed scalars; agreement for scalars above the order and torsion points is over all inputs.",
  ["eddsa/ed25519.go", "eddsa/edwards25519/edwards25519.go", "eccset.go"],
  [("keys, signatures, point operations", "eddsa/ed25519.go: ED25519_genPub, ED25519_sign, ED25519_verify, Point_add, ScalarMultBaseAdd")])

p("C13", "X25519 and CURVE25519-SHA256 signatures verify exactly when genuine",
  "Every signature that the X25519 and the CURVE25519 with SHA-256 types make for a non-empty message verifies under the Montgomery public key derived from the private key (unless that is the base point itself), and an independent implementation of the two schemes accepts it. "
  "Verification accepts exactly the signatures that satisfy the scheme's equation: for X25519 with s below 2^253 and the key's top bit ignored as in RFC 7748, for CURVE25519 with SHA-256 with v below the group order and a canonical key; under the three keys for which the scheme's double scalar multiplication is undefined (0, the base point, and the base point plus the point of order two) nothing is accepted. "
  "So any change of the message, of R or the hash, or of the key's value is refused.",
  ["inputs"], "every private key (clamped or not), message and signature, including crafted ones with the sign bit, high S bits, or a key that is not canonical, of small order or of mixed order",
  "The tests sign fixed messages and verify them with the same code.",
  ["eddsa/x25519.go", "eddsa/curve25519_sha256.go", "eccset.go"],
  [("XEdDSA style scheme", "eddsa/x25519.go: X25519_sign, X25519_verify"), ("EC-KCDSA", "eddsa/curve25519_sha256.go: Keygen, Sign, Verify, Curve")])

p("C14", "Conversion between Edwards and Montgomery keys is the birational map",
  "Converting an Ed25519 public key to X25519 gives the u coordinate of the birational map, and converting a Montgomery key back gives the Edwards point with sign bit zero, so a conversion there and back returns the same u coordinate; the sign bit of an Edwards key has no influence. "
  "The conversion of a key pair's public key equals the key that the Montgomery type derives from the same secret scalar. Keys that are not of 32 bytes and Montgomery keys that are not below the field prime are refused with an error, and an Edwards key whose y is not below the prime is either refused or taken modulo the prime.",
  ["inputs"], "every 32-byte string other than the exceptional u = -1 and y = 1",
  "One pair of vectors is tested; the map is over the whole field.",
  ["eddsa/convert.go", "eccset.go"],
  [("conversions", "eddsa/convert.go: ConvertXToEd, ConvertEdToX")])

p("C15", "BLS signatures follow the standard and verify exactly when genuine",
  "For every private key in [1, r-1] and every message that carries its scheme's domain tag, the BLS signature in both schemes equals the compressed G2 point of the private key times the standard hash-to-curve of the message (with the public key in front in the augmented scheme) under the scheme's tag, and verifies. "
  "Verification succeeds exactly when the key is a compressed non-identity point of the prime-order subgroup of G1, the signature a compressed point of the prime-order subgroup of G2, and the pairing equation holds; a signature of one scheme never verifies in the other.",
  ["inputs"], "every key, message and signature string",
  "The tests check a few vectors; rejection of all points outside the subgroup, of other encodings and of other messages is over all inputs.",
  ["bls12_381/bls12-381.go", "bls12_381/g1.go", "bls12_381/g2.go", "eccset.go"],
  [("sign and verify", "bls12_381/bls12-381.go: Sign, Verify, GenPublicKey"), ("scheme tags", "profile.go, eccset.go: Signature, Verify")])

p("C16", "BLS aggregation is the sum and verifies for the summed keys",
  "Aggregating any list of valid BLS signatures gives the compressed group sum of exactly those signatures, whatever their order, with repetitions counted, and in the basic scheme the aggregate of signatures of one message verifies under the aggregate of the signers' keys and under no other sum. "
  "An empty list or any entry that is not a 96-byte compressed point of the prime-order subgroup of G2 makes the aggregation fail with no output.",
  ["inputs", "histories"], "lists of 1 to many signatures, in every order, with duplicates, inverses, the identity and malformed entries anywhere",
  "One list of fixed signatures is tested.",
  ["bls12_381/bls12-381.go", "eccset.go"],
  [("aggregation", "bls12_381/bls12-381.go: AggregateSignatures"), ("dispatch", "eccset.go: AggregateSignatures")])

p("C17", "BLS12-381 group arithmetic and encodings are exact",
  "In G1 and G2, addition, doubling, negation, subtraction, scalar and multi-scalar multiplication equal the group operation for all operands in any projective representation, including aliasing of result and operands. "
  "Every encoding (compressed, uncompressed and raw coordinates) of a subgroup point decodes to the same point, and decoding refuses every string that is not the encoding of a point of the curve in the prime-order subgroup where it promises one. "
  "Multiplying the G1 base point by a scalar and adding a compressed point returns the compressed sum, or the infinity flag. The group objects behave alike: scalars are numbers modulo the group order, and a point picked from a random stream lies in the subgroup and depends on the stream alone.",
  ["inputs"], "every operand and every byte string, on and off the curve, in and out of the subgroup, with every combination of flag bits",
  "No test in the repository exercises group operations or decoding on chosen operands.",
  ["bls12_381/bls/g1.go", "bls12_381/bls/g2.go", "bls12_381/g1.go", "bls12_381/g2.go", "bls12_381/bls12-381.go"],
  [("groups", "bls12_381/bls/g1.go, g2.go"), ("field", "bls12_381/bls/fp.go, fp2.go, field_element.go, arithmetic_x86.s, arithmetic_fallback.go")])

p("C18", "The pairing is bilinear and non-degenerate, and its target group a field",
  "For all points and scalars the pairing satisfies e(aP, bQ) = e(P, Q)^(ab), is one exactly when an operand is the identity (for subgroup points), and a product check over any list of pairs succeeds exactly when the product of the pairings is one, with identities and inverted pairs anywhere in the list. "
  "Target group multiplication, inversion, exponentiation, comparison and encoding are those of the extension field.",
  ["inputs", "histories"], "every list of pairs, engine reuse after a check or a reset, and every target group element",
  "The pairing is used by the tests only inside one signature verification.",
  ["bls12_381/bls/pairing.go", "bls12_381/bls/gt.go", "bls12_381/bls/fp12.go", "bls12_381/bls/fp6.go", "bls12_381/gt.go", "bls12_381/group.go"],
  [("Miller loop, final exponentiation and product check", "bls12_381/bls/pairing.go"), ("target group", "bls12_381/bls/gt.go, fp12.go")])

p("C19", "Hashing to the BLS12-381 curves follows RFC 9380",
  "For every message and every domain tag of up to 255 bytes, hashing and encoding to G1 and G2 return exactly the point that RFC 9380's SHA-256 suites define, which is always in the prime-order subgroup. "
  "Longer domain tags are refused.",
  ["inputs"], "every message and tag, including empty ones and tags of 255 and 256 bytes, and every field element given to the map",
  "Only through a few BLS signature vectors is G2 hashing tested at all; the exceptional cases of the map need particular field elements.",
  ["bls12_381/bls/hash_to_field.go", "bls12_381/bls/swu.go", "bls12_381/bls/isogeny.go", "bls12_381/bls/g1.go", "bls12_381/bls/g2.go"],
  [("expansion", "bls12_381/bls/hash_to_field.go"), ("map and isogeny", "bls12_381/bls/swu.go, isogeny.go")])

p("C20", "Mina signatures over Pasta follow the scheme and verify exactly when genuine",
  "For every legal private key and every well-formed message, the signature is 64 bytes r||s that satisfies the Mina Schnorr equation with the Poseidon hash of the message, key and r, and it verifies. "
  "Verification accepts exactly the pairs with r below the base field prime, s below the scalar order, a valid public key in any of its three encodings, a satisfied equation and an even y, so any change of key, message or signature is refused.",
  ["inputs"], "every key, message of any number of fields, and every signature string",
  "The tests verify one transaction; acceptance and refusal over all inputs is not settled by it.",
  ["pasta/crypto.go", "pasta/mina.go", "pasta/poseidon.go", "eccset.go"],
  [("sign and verify", "pasta/pasta.go: Sign, Verify; pasta/mina.go; pasta/crypto.go")])

p("C21", "Pasta field, scalar and group arithmetic is exact",
  "Addition, subtraction, multiplication, squaring, negation, inversion, powers and square roots in the two Pasta fields equal arithmetic modulo the two primes for all reduced operands, results are always fully reduced, and conversions to and from bytes and words are inverse; selection, the constants and the division steps do what their comments say. "
  "Group addition, doubling, negation and scalar multiplication equal the curve's group law for all points in any projective representation, including identity, equal and opposite points.",
  ["inputs"], "every reduced operand, including 0, 1, p-1 and values that make carries ripple",
  "No test calls the field or group functions on chosen operands; carry errors in multi-limb arithmetic show for a tiny fraction of operands.",
  ["pasta/pasta_fp.go", "pasta/pasta_fq.go", "pasta/crypto.go", "pasta/utils.go"],
  [("Montgomery arithmetic", "pasta/pasta_fp.go, pasta/pasta_fq.go"), ("group", "pasta/crypto.go: GroupAdd, GroupDbl, GroupScalarMul")])

p("C22", "The Poseidon sponge equals its definition on every input",
  "For every initial state and every sequence of field elements, however it is split over several updates, the Poseidon digest equals the value that the published permutation (width 3, 63 full rounds, exponent 5) and sponge of rate 2 define.",
  ["inputs", "histories"], "every sequence of field elements and every way to split it into updates",
  "The test has a few fixed vectors, and never splits the input.",
  ["pasta/poseidon.go", "pasta/poseidon_3w.go"],
  [("sponge", "pasta/poseidon.go: PoseidonUpdate, PoseidonDigest, PerMutation3W")])

p("C23", "Every digest equals its specification for every message",
  "For each of the nineteen digest types, the digest of every message of every length equals the one its specification defines, with the specified length. "
  "The two digests with a choice of length honour every legal length and give no result for an illegal one, an unknown type gives no result, and the exported hash packages honour salts, keys, personalisation, tree parameters and shorter digests as specified.",
  ["inputs"], "every message and length (block and padding boundaries, beyond 2^32 bits), every digest type and parameter",
  "The tests hash a few strings; padding and counter errors show only for particular lengths.",
  ["hashset.go", "blake256/blake256.go", "blake512/blake512.go", "blake2s/blake2s.go", "sha3/sha3.go", "sm3/sm3.go"],
  [("dispatch", "hashset.go: Hash"), ("padding and counters", "blake256/blake256.go, blake512/blake512.go, blake2s/blake2s.go, sm3/sm3.go, sha3/sha3.go")])

p("C24", "Streaming hashes do not depend on how the input is chunked",
  "For every exported streaming hash, the digest depends only on the concatenation of what was written since creation or the last reset, however it was split; taking the digest appends it to the given slice, changes neither the state nor the bytes already there, and may be repeated and continued. "
  "A reset gives back the initial state including key and salt, extendable output does not depend on how it is read, and a clone and its original never affect each other.",
  ["histories"], "every sequence of write, sum, reset, read and clone calls",
  "Tests write once and sum once; the buffered-block states of the implementations are reached only by particular sequences.",
  ["blake256/blake256.go", "blake512/blake512.go", "blake2s/blake2s.go", "sha3/sha3.go", "sha3/shake.go", "sm3/sm3.go"],
  [("buffering", "Write, Sum and Reset of each package")])

p("C25", "Message authentication codes equal their specification",
  "HMAC with SHA-256, SHA-512 and SM3 and the keyed BLAKE2s code equal RFC 2104 and RFC 7693 for every key and message of any length, including empty ones and keys around and beyond the block length. "
  "An unknown type gives no result.",
  ["inputs"], "every key length from 0 to several blocks and every message",
  "No test computes a code with a key longer than a block or of odd length.",
  ["hashset.go", "sm3/sm3.go", "blake2s/blake2s.go"],
  [("HMAC", "hashset.go: Hmac"), ("keyed BLAKE2s", "blake2s/blake2s.go: NewMAC")])

p("C26", "Calls never modify their inputs or share memory with later results",
  "No call of the public interface changes any byte of the slices or objects it is given, within their length or in their spare capacity, whether it succeeds or fails. "
  "A result never shares memory with an argument, with internal state or with another result, so that overwriting one changes nothing else.",
  ["inputs", "histories"], "every function of the public interface with valid and invalid arguments and argument slices that share one buffer",
  "Tests never look at their arguments after a call; a write into spare capacity or a shared buffer changes nothing that they read.",
  ["eccset.go", "ecdsa.go", "sm2_std.go", "hashset.go", "eddsa/curve25519_sha256.go", "eddsa/x25519.go", "bls12_381/bls12-381.go", "pasta/crypto.go"],
  [("copies of inputs", "throughout the implementation of each scheme")])

p("C27", "Hostile input never crashes and always gets a typed refusal",
  "For every function of the top-level interface, every key type and every argument (nil, empty, of any length, any bytes), the call returns without a panic and within bounded work. "
  "A call that does not succeed returns one of the documented codes with no signature, key, point, plaintext or shared secret, and a call that succeeds returns a result of the documented length.",
  ["inputs"], "every byte string in every argument position, every type code, structured mutations of valid arguments",
  "The tests pass well-formed arguments only.",
  ["eccset.go", "ecdsa.go", "sm2_std.go", "hashset.go", "bls12_381/bls12-381.go", "pasta/crypto.go", "eddsa/x25519.go", "eddsa/ed25519.go"],
  [("length and range checks", "eccset.go and the scheme implementations")])

p("C28", "Concurrent use gives the same results as sequential use, without races",
  "Any number of goroutines may call the whole public interface at the same time on shared input slices and on separate objects: there is no data race, and every call gives a result that the same call could give alone.",
  ["schedules"], "every interleaving of calls from many goroutines, including the first calls in a process while tables are being initialised",
  "All tests are sequential.",
  ["init.go", "curve.go", "secp256k1.go", "secp256r1.go", "sm2_std.go", "bls12_381/bls/arithmetic_decl.go", "pasta/poseidon_3w.go", "eccset.go"],
  [("shared tables and lazy initialisation", "curve.go, init.go, sm2_std.go: initsm2_stdParam; bls12_381/bls/arithmetic_decl.go")])

p("C29", "Every build configuration computes the same results",
  "The assembly and portable implementations selected by architecture, processor features and build tags give identical results for identical inputs and randomness, over the whole public interface including error codes.",
  ["configurations", "inputs"], "the default amd64 build with and without the ADX instructions, the generic and appengine builds and 32-bit x86, on every input",
  "The tests run in one configuration on one machine.",
  ["bls12_381/bls/arithmetic_decl.go", "bls12_381/bls/arithmetic_fallback.go", "bls12_381/bls/arithmetic_x86.s", "sha3/keccakf.go", "sha3/keccakf_amd64.s", "sha3/xor_unaligned.go", "sha3/xor_generic.go"],
  [("selection of implementations", "build constraints and cpu detection in the anchored files")])

p("C30", "Edwards25519 field, scalar and group arithmetic is exact",
  "The exported Edwards25519 field operations equal arithmetic modulo 2^255-19 with canonical encodings for all operands, scalar multiply-add and wide reduction equal arithmetic modulo the group order with fully reduced results, and fixed-base, double-scalar and two-point multiplication equal the group operation for all scalars that they accept and all decodable points. "
  "Decoding a point accepts exactly the encodings whose y coordinate gives a point of the curve.",
  ["inputs"], "every field element in loose representation, every 32- and 64-byte scalar string, every point encoding",
  "There are no tests of the low-level arithmetic; carry errors show only for rare operands.",
  ["eddsa/edwards25519/edwards25519.go", "eddsa/edwards25519/const.go"],
  [("field", "FeMul, FeSquare, FeInvert, FeToBytes, FeFromBytes"), ("scalars", "ScMulAdd, ScReduce"), ("group", "GeScalarMultBase, GeDoubleScalarMultVartime, GePointAddVarTime, FromBytes, ToBytes")])

p("C31", "No call reads or writes outside the memory of its arguments",
  "No call of the public interface reads past the end or before the start of an argument slice or writes to read-only arguments, including in assembly and unsafe code, for arguments of every length and alignment.",
  ["inputs", "configurations"], "arguments that end or start exactly at an inaccessible page, of every length and alignment, and address-sanitized and pointer-checked builds",
  "An over-read inside the heap goes unnoticed by a test.",
  ["sha3/xor_unaligned.go", "sha3/keccakf_amd64.s", "bls12_381/bls/arithmetic_x86.s", "hashset.go", "eccset.go"],
  [("unsafe and assembly code", "sha3/xor_unaligned.go, sha3/keccakf_amd64.s, bls12_381/bls/arithmetic_x86.s")])

p("C32", "Schemes are kept apart, and unsupported requests are refused",
  "A signature made under one key type never verifies under another type or another key, except that the two Ed25519 types share one verification rule and that a key converted between its Ed25519 and X25519 forms counts as the same key, and the named aliases of the secp256r1 type behave identically to it. "
  "A type code that a function does not support gets the wrong-type code or no result (the first step of the key agreement takes no notice of the type), and the published group orders are the exact orders of the curves' groups in big-endian form.",
  ["inputs", "configurations"], "every pair of types, every 32-bit type code, every function",
  "The tests use matching types only.",
  ["eccset.go", "profile.go"],
  [("dispatch", "eccset.go: switch statements of every function")])

p("C33", "A result depends on the call alone, not on the calls before it",
  "Every call of the public interface, given the same arguments and the same random bytes, returns the same result and code whatever calls were made before it, successful or refused, with equal, similar or unrelated arguments, and whatever the caller has since done to earlier arguments and results.",
  ["histories"], "every history of calls, in particular histories of calls whose arguments agree in parts",
  "A test makes few calls, in one order; a remembered value that belongs to other arguments shows only when arguments agree in the part it is remembered under.",
  ["eccset.go", "ecdsa.go", "sm2_std.go", "secp256k1.go", "secp256r1.go", "eddsa/curve25519_sha256.go", "eddsa/x25519.go", "bls12_381/bls12-381.go", "bls12_381/bls/pairing.go", "pasta/crypto.go", "pasta/poseidon_3w.go", "hashset.go"],
  [("package-level state", "init.go, curve.go, bls12_381/bls12-381.go and the tables of each scheme"), ("objects kept between calls", "bls12_381/bls/pairing.go: Engine; bls12_381/bls/g1.go, g2.go: temporaries")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
