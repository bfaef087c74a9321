"""What check.py runs for each property: the monitor program, its builds, and what is counted."""
PROPS = {
    "C23": {
        "runs": [{"variant": "amd64"}, {"variant": "generic", "only": "every-length,packages", "scale": 0.1}, {"variant": "appengine", "only": "every-length,packages", "scale": 0.1}, {"variant": "386", "only": "every-length,packages", "scale": 0.1}],
        "rule": "A case is one message (every length in turn, block boundaries, random lengths, long messages; zero, all-ones and random bytes at odd offsets) given to every digest; "
                "an event is one digest of one message compared byte for byte with an implementation written from its specification, distinct by digest and message.",
    },
    "C01": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is one private key (uniform, small, near the order, low weight, runs of ones) and hash (uniform, 0, near the order, near 2^256) on one of the two curves, signed under a fresh source of randomness, or an illegal key or message; an event is one signature decided by an independent verifier, its form, and its recovery byte against the random point computed from the known key."},
    "C02": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a set of (key, hash, signature) triples on one curve: genuine, mutated, or constructed (chosen random point, x between n and p, sum at infinity, equal summands, ends of ranges, keys off the curve or not reduced, wrong lengths); an event is one verification compared with an independent decision, distinct by triple."},
    "C03": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is one 65 byte signature and hash on secp256k1, secp256r1 or SM2: genuine with either recovery byte, mutated, or constructed; an event is one recovery compared with an independent computation (the exact key, or failure)."},
    "C04": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a key, identity (none, empty, every length to 8191 bytes, too long, or searched for digests with unusual leading or trailing bytes), message and signature: made by the library, mutated, or constructed; an event is one signature or verification compared with an independent implementation of GB/T 32918."},
    "C05": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a key pair and a plaintext (every length to 200 bytes, block boundaries, long ones), encrypted by the library or by an independent implementation, or a ciphertext changed in one byte, truncated, extended, reordered or built for an illegal point; an event is one decryption compared with an independent one."},
    "C06": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is one key agreement (static and ephemeral keys, identities of 1 to 8191 bytes, key lengths of 1 to 65535 bytes, with and without supplied randomness) run by both parties, possibly with one value that differs or is illegal; an event is an agreement whose key and confirmation values equal an independent computation, or a refusal without output."},
    "C11": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a seed and a message of any length, or a public key, message and signature (genuine, mutated, S plus multiples of the order, small or mixed order, non-canonical encodings, wrong lengths); an event is a key, signature or decision compared with the Go standard library."},
    "C12": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a 32 byte scalar over the whole range, points of the curve in all their encodings (also of small order, equal, opposite) or hostile signatures; an event is a key, sum, signature or decision compared with independent Edwards arithmetic or the Go standard library."},
    "C13": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a private key and message of any length signed under known randomness, or a changed or constructed signature; an event is a signature compared byte for byte, or a decision, with an independent implementation of the two schemes."},
    "C14": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a coordinate (uniform, near 0 and near the prime), a private key, or a malformed key; an event is a conversion compared with the birational map."},
    "C30": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a set of field elements in loose limb representations, scalars of 32 or 64 bytes, points in random projective coordinates, or encodings; an event is one operation compared with arithmetic on math/big."},
    "C08": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a pair of points (random, small multiples of the generator, small or large x, equal, opposite, identity) in one of the accepted encodings, a scalar (any 32 bytes, around multiples of the order, single digits at every place), or a string that encodes no point; an event is one operation compared with affine arithmetic on math/big, distinct by operands."},
    "C09": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a point, or a 33 byte string (x enumerated from both ends of the field, uniform, above the prime; any prefix, other lengths); an event is one compression or decompression compared with a square root computed independently."},
    "C20": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a private key and a message of up to 70 field elements with any initial state, signed with fresh or chosen random bytes, or a changed or constructed signature, message or key; an event is one signature or decision compared with an independent implementation of the scheme."},
    "C21": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a set of operands (reduced words of chosen shapes: zero, all-ones, words of the prime, single bits; roots of unity; points in random projective coordinates); an event is one operation compared with math/big and required to be reduced, distinct by operands."},
    "C22": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is an initial state and a sequence of field elements, absorbed at once, one by one and in random parts; an event is a digest, or a state, compared with an independent permutation and sponge (validated on published vectors)."},
    "C24": {"runs": [{"variant": "amd64"}, {"variant": "generic", "scale": 0.3}, {"variant": "386", "scale": 0.3}],
            "rule": "A case is a history of write, sum, reset, read and clone calls on one to four hash objects, with chunk lengths around the block size and caller's buffers overwritten after each call; an event is one digest or output compared with that of the concatenation, distinct by history."},
    "C25": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a key and message of every length in turn, and random ones; an event is one code compared with the Go standard library or an implementation written from the RFC."},
    "C10": {"rule": "A case is a series of operations with known keys (keys and messages fixed or varied, source read whole or in pieces), one operation repeated with one byte of the randomness changed, one repeated randomness with changed keys and messages, or a failing source; an event is one secret number recovered from an operation and entered in the statistics, distinct by value."},
    "C17": {"runs": [{"variant": "amd64"}, {"variant": "noadx", "scale": 0.12}, {"variant": "generic", "scale": 0.12}],
            "rule": "A case is a pair of points of G1 or G2 (multiples of the generator, points outside of the subgroup, equal, opposite, identity; in affine or other coordinates, results aliased with operands), scalars of any shape, a list of up to 120 (thorough: 1003) points and scalars, or an encoding (valid, mutated, flags changed, coordinate plus the prime); an event is one operation or decoding compared with affine arithmetic over independent fields."},
    "C19": {"runs": [{"variant": "amd64"}, {"variant": "noadx", "scale": 0.12}, {"variant": "generic", "scale": 0.12}],
            "rule": "A case is a message and domain tag (every length from 0 to 258 and longer) hashed or encoded to one of the groups, or a field element given to the map (small, near the prime, the exceptional ones, those that map to the identity, not reduced); an event is one point compared with an independent implementation of RFC 9380 (validated on its vectors), or a refusal."},
    "C15": {"runs": [{"variant": "amd64"}, {"variant": "noadx", "scale": 0.12}, {"variant": "generic", "scale": 0.12}],
            "rule": "A case is a private key and message signed in one of the two schemes, or a key, message and signature that are genuine, mutated or constructed (torsion parts, identity, opposite, other encodings, coordinates plus the prime, key in front of the message or not, other scheme's tag, wrong lengths); an event is one signature compared with an independent computation, or one decision compared with the known discrete logarithm."},
    "C16": {"runs": [{"variant": "amd64"}, {"variant": "noadx", "scale": 0.12}, {"variant": "generic", "scale": 0.12}],
            "rule": "A case is a list of up to several hundred signatures (repeated, opposite, identity, running sum of zero) or one with a bad entry at any place; an event is one aggregate compared with an independent sum, its verification under the summed keys, or a refusal."},
    "C18": {"runs": [{"variant": "amd64"}, {"variant": "noadx", "scale": 0.12}, {"variant": "generic", "scale": 0.12}],
            "rule": "A case is a pair of points with known logarithms (zero, small, near the order, random; affine or other coordinates), a list of up to 70 pairs some of which are inverted, cancel or contain the identity, or elements of the extension field; an event is one pairing compared with an independent ate pairing or power of it, one decision on a product, or one operation of the target group compared with polynomial arithmetic."},
    "C07": {"runs": [{"variant": "amd64"}, {"variant": "386", "scale": 0.08}],
            "rule": "A case is a private key of one of the ten types: every single bit and run of ones, around the order, small, one digit at every place, of every length to 59 bytes, or random; an event is one public key compared with an independent derivation, or a refusal."},
    "C26": {"rule": "A case is one call of one function (valid arguments, or one or two of them replaced by hostile bytes) with its arguments laid out in one buffer: in any order, adjacent, apart or at the same place, with spare capacity that runs into what follows; or a set of operations on point, field, key and configuration objects. An event is one call after which the whole buffer, the caller's slice headers, the memory ranges of the results, the results of the 48 calls before it, and a repeated call after overwriting were compared; distinct by function, arguments and layout."},
    "C27": {"runs": [{"variant": "amd64", "hang": 60}, {"variant": "386", "hang": 90, "scale": 0.15}],
            "rule": "A case is one call of one top-level function with arguments that are valid, or of which one, two or all are replaced: nil, empty, of each length in turn, random, cut, extended, mutated, all zero or ones, numbers around the moduli, material of another type or position, broken or enormous messages, any type code. An event is one call whose outcome was checked: no panic, a documented code, no output on refusal, the documented lengths on success; distinct by function, type and arguments."},
    "C29": {"trace": True, "runs": [{"variant": "amd64"}, {"variant": "noadx"}, {"variant": "generic"}, {"variant": "386"}, {"variant": "appengine"}],
            "rule": "A case is one call of one function with seeded randomness and valid or hostile arguments, a history of a Keccak object with chunks of every length and alignment, or operations on field elements, points and target-group elements whose words make carries and reductions happen; all of it is run by five builds (assembly with and without the ADX instructions, generic, 32-bit, appengine). An event is one outcome written to the traces, which are compared line by line; distinct by function and arguments."},
    "C28": {"runs": [{"variant": "race", "shards": 4}, {"variant": "amd64", "shards": 4, "scale": 2}], "procs": 2,
            "rule": "A case is a plan for 2 to 24 goroutines released together (the same calls on the same slices in one or in different orders, one function, one key type, or any functions), with delays injected where randomness is read, on 1 to 8 threads, with collections in between, in a warm process or as the first calls of a fresh one, in a race-detecting and an ordinary build. Randomness depends only on the call, so that every call has one right result; an event is one call that overlapped another in time and whose result was compared with that of the call alone, a pair of functions that ran at the same time, or a completion order not seen before."},
    "C31": {"runs": [{"variant": "amd64", "only": "guard,lengths,objects"}, {"variant": "noadx", "only": "guard,objects", "scale": 0.25}, {"variant": "386", "only": "guard,lengths,objects", "scale": 0.15},
                     {"variant": "generic", "only": "guard,lengths,objects", "scale": 0.2}, {"variant": "asan", "only": "heap"}, {"variant": "checkptr", "only": "heap,lengths", "scale": 0.5}],
            "rule": "A case is one call of one function with valid or hostile arguments (any length) that lie at the end or the start of read-only pages next to inaccessible ones, half of them with spare capacity there, its destinations likewise in writable pages; a series of operations on point and field objects that lie there; or, in address-sanitized and pointer-checked builds, on the heap without spare capacity at any alignment. An event is one call without a fault, without a changed byte around its destinations, and with the result it has on the heap; distinct by function, lengths and place."},
    "C33": {"trace": True, "runs": [{"variant": "amd64"}, {"variant": "reversed"}, {"variant": "shuffled"}],
            "rule": "A case is a call of one function and up to nine that differ from it in one argument (one bit at either end or inside, a half, the sign of a point, a byte more or less, the bytes divided among two arguments in another way, nil or empty, the type), or 24 calls of several functions on related material. Three processes make the calls in three orders (each after the first one, in reverse with unrelated calls between, shuffled with repetitions), every call with randomness that depends on it alone; arguments and results are overwritten after each call. An event is one call whose outcome was compared with its outcome in the other orders, or with its own earlier one; distinct by function and arguments.",
            "technique": "runtime monitoring: differential comparison of recorded outcomes of the same calls under several histories in separate processes"},
    "C32": {"rule": "A case is a signature of one type offered to another type (the same key bytes, the key that the other type derives from the same private key, an unrelated one; bytes cut, extended or reversed to fit), to another key, message or identity; a hostile signature judged by the two Ed25519 types; a call under an alias; or a call with one of four codes that the function does not support (one bit away, the same low or high part, next to the range, another family, any). An event is one decision or refusal; distinct by what was offered, or by code."},
}
