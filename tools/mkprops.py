#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe),
            hook_needed=hook)))

prop("C01", "System entropy is complete and fresh, or the request fails closed",
     "When a request for operating-system entropy succeeds, every byte of the buffer was delivered by the operating system's random source for that request, whatever mix of interrupted, refused, short, blocked or failing system calls occurred on the way. When it cannot be satisfied the call reports failure and the buffer is all zero. Either way no file descriptor is left open, the caller's errno is unchanged, nothing outside the buffer is written, and once the faults stop the request completes within a bounded number of system calls.",
     ["fault_sequences", "histories", "inputs"],
     "For every request size, every sequence of results the kernel may give to the calls made on the request's behalf (EINTR, EAGAIN, short reads, ENOSYS/EPERM, missing or wrong-type device files, descriptor exhaustion, poll outcomes), and every history of earlier requests in the process.",
     "The tests ask a healthy kernel for 32 bytes a few times; no system call ever fails, is interrupted or returns short, so none of the retry and fallback code runs.",
     ["src/entropy/sys.c", "src/entropy/entropy.h", "src/rand.c"],
     [("retry on EINTR/EAGAIN and continue after short reads", "src/entropy/sys.c:torsion_callrand, torsion_syscallrand loops"),
      ("fallback chain getrandom -> device file -> sysctl uuid", "src/entropy/sys.c:torsion_sysrand"),
      ("zero the buffer on failure, restore errno", "src/entropy/sys.c:torsion_sysrand")],
     observe=["return value, buffer, canaries around it, errno, open descriptor table, system-call trace of torsion_getentropy"],
     hook="none: every system call is reached through an imported libc symbol")

prop("C02", "Processes and threads never share random output",
     "Random bytes or numbers handed out in one process or thread never reappear in another: after any sequence of forks, thread creations and calls, a child never repeats what its parent (or a sibling) produced or goes on to produce, and threads never receive each other's output. Every process reseeds from fresh operating-system entropy before its first output.",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "For every interleaving of threads inside the calls, every fork tree and every point at which the fork happens (before first use, mid-pool, after failures), in both the thread-local and the mutex-protected build.",
     "The fork and thread tests compare one pair of 32-byte outputs on one uncontrolled schedule and only in the thread-local build; they never fork mid-pool, never fork from a failing generator and never preempt inside a call.",
     ["src/rand.c", "src/entropy/sys.c"],
     [("per-thread generator state or a global mutex", "src/rand.c:rng_state, rng_global_lock"),
      ("reseed when the process id changes", "src/rand.c:rng_global_init")],
     state=[("rng_state", "generator key, pool, owner pid", "src/rand.c")],
     observe=["the multiset of all 8-byte windows handed out by torsion_getrandom / torsion_random / torsion_uniform across the process tree"],
     hook="none: process id, mutex and entropy calls are imported symbols; instruction-level preemption uses compiler instrumentation of the unmodified source")

prop("C03", "No random output before complete seeding; failure reported and recoverable",
     "The random byte and number calls hand out data only from a generator seeded with complete, successful operating-system entropy obtained by the process that uses it. While seeding fails, every call reports failure and returns zeros, leaves no half-seeded state behind, and the first call after the operating system recovers succeeds with output that depends on the new entropy.",
     ["fault_sequences", "histories"],
     "For every sequence of calls and forks and every pattern of entropy failures (at first use, partway through the seed, after a fork, repeatedly), including failures of the hardware source.",
     "Entropy never fails under the tests; the failure branches are excluded from coverage in the source itself.",
     ["src/rand.c", "src/entropy/sys.c", "src/entropy/hw.c"],
     [("started flag set only after successful seeding", "src/rand.c:rng_global_init"),
      ("failure zeroes the output", "src/rand.c:torsion_getrandom, torsion_random, torsion_uniform")],
     state=[("rng_state.started / pid", "seeded-by-this-process marker", "src/rand.c")],
     observe=["return values and outputs of torsion_getrandom, torsion_random, torsion_uniform against the recorded entropy deliveries"],
     hook="hardware instructions need a seam: TORSION_SIM define in src/entropy/hw.c")

prop("C04", "Memory kept between calls never reveals earlier random output",
     "Someone who captures everything the library keeps in memory between calls (static, thread-local and heap), at any moment after random data was handed out, cannot compute from it any random bytes or numbers returned earlier: neither the earlier output itself nor key material that regenerates it is still present. This holds after every call and at every position of the internal buffer.",
     ["crash_points", "histories"],
     "For every interleaving of byte, number and bounded-number requests of any size and every capture point between calls.",
     "No test looks at generator memory at all.",
     ["src/rand.c", "src/stream.c", "src/util.c"],
     [("key replaced after every request (fast key erasure)", "src/rand.c:rng_generate, rng_random"),
      ("pool words erased as they are consumed", "src/rand.c:rng_random"),
      ("temporaries wiped", "src/util.c:torsion_memzero")],
     observe=["static, thread-local and heap memory after each call: earlier outputs, and keystream expansion of every candidate key/nonce found there"],
     hook="none: the simulator captures the writable image of the library's objects, its thread-local block and its heap blocks")

prop("C05", "A missing, failing or backdoored CPU generator cannot weaken or break the RNG",
     "Whatever the processor's random instructions do (absent, failing intermittently or permanently during probing, stuck at a constant, or chosen by an attacker who sees everything else), random output still depends on the full operating-system entropy and stays distinct for distinct operating-system seeds. Such behaviour never makes a call crash or return success without entropy, and never makes it wait for ever, except for a seed instruction that passes its self-test and then stops answering for good.",
     ["fault_sequences", "histories", "configurations"],
     "For every capability report and every sequence of results of the hardware random instructions, with healthy or failing operating-system entropy.",
     "The tests run on whatever CPU executes them; its instructions do not fail on demand and cannot be made to lie.",
     ["src/entropy/hw.c", "src/rand.c"],
     [("hardware words only mixed into OS entropy by hashing", "src/rand.c:rng_init"),
      ("at most 32 bits of hardware input per rekey", "src/rand.c:rng_generate, rng_random"),
      ("bounded retries and self-test before trusting", "src/entropy/hw.c:torsion_rdrand, torsion_rdtest, torsion_hwrand")],
     observe=["outputs of the random calls under controlled hardware answers and controlled OS entropy"],
     hook="TORSION_SIM define in src/entropy/hw.c replaces the cpuid/rdrand/rdseed instructions by calls into the simulator")

prop("C06", "Bounded random numbers are in range, unbiased and always terminate",
     "A successful request for a random number below a bound returns a value strictly below it (zero for bounds of zero and one), each possible value equally likely, and consumes a bounded expected amount of randomness. This holds for every bound and every call history, including bounds close to the full 32-bit range and requests that straddle a refill of the generator's buffer.",
     ["histories", "inputs"],
     "For every bound, every interleaving with other random requests and every entropy stream.",
     "The tests only check the range for a handful of bounds and a few hundred draws; a bias towards some residues is invisible to them.",
     ["src/rand.c"],
     [("rejection of the incomplete last interval", "src/rand.c:rng_uniform")],
     observe=["distribution of torsion_uniform and torsion_random results over seeded runs"],
     hook="none")

prop("C07", "Deterministic generators follow SP 800-90A over any call history",
     "For any history of instantiate, reseed and generate calls, with or without additional input and with any request sizes, each of the deterministic generators (HMAC, hash and counter based) returns exactly the bytes the standard prescribes for that history. Output depends on nothing else: not on other generator instances used in between, not on what memory held before instantiation, not on how its inputs and output buffers are placed.",
     ["histories", "configurations", "inputs"],
     "For every interleaving of operations over several live instances, every hash / key size / derivation-function choice, empty and long inputs, request sizes around block boundaries, and long histories.",
     "The tests replay fixed vector files of at most two generate calls on one instance; long or interleaved histories, odd sizes, re-instantiation of used memory and carries in the internal counters are not reached.",
     ["src/drbg.c", "src/hash.c", "src/cipher.c"],
     [("update functions run before and after output", "src/drbg.c:hmac_drbg_update, hash_drbg_generate, ctr_drbg_update"),
      ("multi-precision state addition and counters", "src/drbg.c:accumulate, increment")],
     observe=["output bytes of the three generators against independent models executing the same history"])

prop("C08", "Streaming hashes and MACs depend only on the bytes, not on how they arrive",
     "For every hash, HMAC and one-time MAC context, the final value is the function defined by its standard of the concatenated input, no matter how the input is cut into updates (including empty and very large ones, and totals beyond 2^32 bits and 2^32 bytes), how contexts are interleaved, copied mid-stream or reinitialised, and where the data lies in memory. No call writes outside its context and output or modifies its input.",
     ["schedules", "histories", "inputs"],
     "For every algorithm and output length, every chunking schedule, every interleaving of several live contexts, snapshot/copy and reuse.",
     "Vector tests feed whole messages in one or two updates of small size; chunk boundaries, cross-context interleaving, context reuse and multi-gigabyte totals are not reached.",
     ["src/hash.c", "src/mac.c"],
     [("partial block buffering and total length counters", "src/hash.c: *_update, *_final"),
      ("block buffering of the one-time MAC", "src/mac.c:poly1305_update, poly1305_final")],
     observe=["digests from hash_*, per-algorithm, hmac_* and poly1305_* interfaces"])

prop("C09", "Cipher streams are chunking-independent, exactly sized and invertible",
     "For every block cipher in every non-authenticating mode, the bytes produced by a stream depend only on key, IV, options and the concatenated input: any sequence of update calls yields the same output as one call, never more than the announced sizes, in place or between buffers where allowed. Decrypting gives back the input, and input that no encryption produces (wrong length, malformed padding) is refused instead of being silently accepted.",
     ["schedules", "histories", "fault_sequences", "inputs"],
     "For every cipher, mode, key size and padding option, every chunking of the input, interleaving of several streams, truncation and corruption of the ciphertext.",
     "The vector tests use one fixed chunking per mode, mostly whole messages, and do not vary the split positions that exercise the held-back block, stealing and counter state.",
     ["src/cipher.c"],
     [("block buffer and held-back last block", "src/cipher.c:cipher_stream_update, cipher_stream_final"),
      ("keystream position carry-over", "src/cipher.c:stream_update"),
      ("padding and stealing", "src/cipher.c:pkcs7_unpad, cbc_steal, xts_unsteal")],
     observe=["outputs and lengths of the stream and one-shot interfaces against mode models built from single-block calls"])

prop("C10", "Authenticated encryption: honest traffic opens, altered traffic never does",
     "Whatever authenticated mode is used (GCM, CCM, EAX, ChaCha20-Poly1305, secret boxes), a message processed in any chunking by the sender produces the ciphertext and tag the standard defines and is accepted and recovered exactly by a receiver using any other chunking. If the channel changes, truncates, extends, swaps, replays under another nonce or otherwise disturbs any bit of ciphertext, tag, associated data or nonce, the receiver reports failure; a tag that was never supplied is never accepted.",
     ["fault_sequences", "schedules", "histories"],
     "For every cipher, nonce length, tag length, split of message and associated data, counter start (including 32-bit wrap), and every fault the channel applies to the transmitted parts.",
     "The vector tests check fixed messages in one chunking and only flip one byte of the tag; forged ciphertext, associated data and nonces, truncations and cross-message swaps are untested.",
     ["src/cipher.c", "src/aead.c", "src/ies.c", "src/mac.c", "src/util.c"],
     [("length accounting and padding between associated data and message", "src/cipher.c:ghash_*, ccm_setup, eax_*; src/aead.c"),
      ("full-length tag comparison", "src/cipher.c:cipher_mode_verify; src/ies.c:secretbox_open")],
     observe=["accept/reject decisions, plaintext, ciphertext and tags on both ends of the simulated channel"])

prop("C11", "Keystream ciphers keep their position across any sequence of calls",
     "For ChaCha20, Salsa20 and RC4 in all key and nonce sizes, encrypting a message piecewise with any chunking, in place or not, equals encrypting it at once and equals the cipher's definition at every offset, including across counter carries. Interleaving streams or copying a context mid-stream never disturbs another stream.",
     ["schedules", "histories", "inputs"],
     "For every chunking schedule, starting counter (around 32-bit and 64-bit wrap), key/nonce size and interleaving of live contexts.",
     "The tests process short messages, mostly in one call and from counter zero; counter carry and mid-block resumption are barely reached.",
     ["src/stream.c", "src/util.c"],
     [("keystream block buffering with position", "src/stream.c:chacha20_crypt, salsa20_crypt"),
      ("64-bit counter carry", "src/stream.c:chacha20_block, salsa20_block")],
     observe=["ciphertext bytes against an independent keystream model addressed by absolute offset"])

prop("C12", "Elliptic-curve signatures: honest ones verify, disturbed ones never do",
     "For every curve and every signature scheme (ECDSA, both Schnorr variants, EdDSA with its context and pre-hash options), a signature made with a valid key verifies under the matching public key wherever it is checked: singly, in a batch of any composition and order, after conversion between encodings, or by key recovery. If storage or transport alters message, signature, key or context in any way that does not re-encode the same valid signature, verification fails; a batch is accepted exactly when all its members are valid.",
     ["fault_sequences", "histories", "inputs"],
     "For every curve, scheme, message length, batch composition and scratch reuse history, and every channel fault: bit flips, truncation, swaps between messages, out-of-range and wrapped scalars, negated, non-canonical or small-order points.",
     "The tests verify fixed vectors and a few random round trips and flip single bytes; wrapped scalars, non-canonical encodings, mixed valid/invalid batches of many sizes and scratch reuse are not covered systematically.",
     ["src/ecc.c", "src/hash.c", "src/drbg.c", "src/asn1.c"],
     [("range checks on scalars and coordinates", "src/ecc.c:ecdsa_verify, bip340_verify, eddsa_verify, sc_import, fe_import"),
      ("randomised linear combination for batches", "src/ecc.c:bip340_verify_batch, eddsa_verify_batch, bipschnorr_verify_batch")],
     observe=["verification results against an independent big-integer model of each scheme"])

prop("C13", "Key agreement: both ends agree, bad peers are refused",
     "For every curve and for finite-field agreement, two parties exchanging public keys over a faulty channel either derive the identical secret the mathematics defines or a party is told that derivation failed. A peer value that is not a valid group element of that curve's public keys (off-curve, out of range, wrong length or format), or that would force a zero or identity secret, never yields a success with attacker-chosen secret.",
     ["fault_sequences", "histories", "inputs"],
     "For every curve and key representation, every history of key conversions and tweaks applied consistently to both halves, and every corruption of the exchanged values.",
     "The tests run a few honest exchanges and a fixed list of small-order points; invalid-curve points, wrapped coordinates and conversions chained in arbitrary order are not covered.",
     ["src/ecc.c", "src/dsa.c"],
     [("point validation on import", "src/ecc.c:wge_import, xge_import, mge/pge import"),
      ("identity check on the derived point", "src/ecc.c:ecdsa_derive, ecdh_derive, eddsa_derive"),
      ("range and group checks", "src/dsa.c:dsa_derive")],
     observe=["derived secrets and return codes on both ends against a big-integer model"])

prop("C14", "RSA and DSA: honest operations succeed, corrupted ones are rejected",
     "With keys produced by the library and any padding scheme, hash, salt length, label and message length the scheme allows, signatures verify and ciphertexts decrypt to the original message, with results that follow the scheme's definition; requests the scheme does not allow are refused. Any corruption of signature, ciphertext, message, label or public key in transit or storage makes verification or decryption report failure, never success and never a crash.",
     ["fault_sequences", "histories", "inputs"],
     "For every key size and exponent, hash and padding parameter choice, message length up to and beyond the limit, and every channel fault including structured ones (value plus modulus, swapped halves, shortened or padded encodings, doctored padding under a known key).",
     "The vector tests exercise fixed keys and messages and flip one byte; doctored paddings with valid structure except one defect, out-of-range representatives and length limits are sampled only at a few points.",
     ["src/rsa.c", "src/dsa.c", "src/mpi.c", "src/asn1.c"],
     [("constant-time padding checks", "src/rsa.c:rsa_verify, rsa_decrypt, rsa_verify_pss, rsa_decrypt_oaep"),
      ("representative range checks", "src/rsa.c, src/dsa.c"),
      ("fault check after CRT exponentiation", "src/rsa.c:rsa_priv_decrypt")],
     observe=["return codes and outputs against independent big-integer encodings of each padding scheme"])

prop("C15", "Re-blinding a curve context at any time changes no result",
     "Randomising a curve context, at any point of a program, any number of times, with any entropy, never changes the outcome of any later operation: keys, signatures, verifications and shared secrets are the same as with a context that was never randomised. Creating, sharing or destroying other contexts in between makes no difference either.",
     ["histories", "schedules", "inputs"],
     "For every curve, every sequence of operations with blinding inserted between any of them, every entropy value including degenerate ones, and several contexts alive at once.",
     "Tests randomise once before a few signatures; repeated blinding, degenerate entropy and interleaving across all operations are not explored.",
     ["src/ecc.c"],
     [("blinding scalar and its base-point multiple kept in step", "src/ecc.c:wei_randomize, edwards_randomize, *_mul_g")],
     observe=["outputs of every curve operation on a blinded context against a fresh one"])

prop("C16", "Stored keys and signatures survive bit rot: intact, or rejected",
     "Any key, parameter set, point, signature or password record the library exported can be imported again with the same meaning and re-exports to the same bytes. After any damage to the stored form (bit flips, truncation, extension, torn or spliced writes, inconsistent lengths) importing and validating either fails, or yields an object whose re-export is well formed and consistent; it never crashes, reads or writes out of bounds, hangs, or accepts an encoding that is not the canonical one where canonical form is required.",
     ["fault_sequences", "crash_points", "inputs"],
     "For every serialised object type and size, and every corruption of the stored bytes including length fields and leading zeros.",
     "The tests import intact vectors and a small set of malformed ones; torn writes, nested length corruption and systematic truncation are not covered and out-of-bounds reads are invisible without instrumentation.",
     ["src/asn1.c", "src/rsa.c", "src/dsa.c", "src/ecc.c", "src/kdf.c"],
     [("strict length and sign checks when parsing", "src/asn1.c"),
      ("key validation", "src/rsa.c:rsa_priv_verify, src/dsa.c:dsa_priv_verify"),
      ("range checks on import", "src/ecc.c: *_import")],
     observe=["return codes, re-exported bytes, memory accesses (address sanitizer) of every import/verify/convert function"])

prop("C17", "Text encodings: exact round trip, damaged text is detected",
     "Every text encoding (base16, base32, base58, base64 and variants, both checksummed address formats) decodes what it encoded, within the announced sizes, and accepts exactly the canonical text of some value. Damaged text is refused: any character outside the alphabet, wrong length or padding, non-zero trailing bits, mixed case where forbidden, and, for the checksummed formats, any change of up to four characters.",
     ["fault_sequences", "inputs", "histories"],
     "For every payload, prefix and length, and every channel fault on the text: substitutions, insertions, deletions, transpositions, case changes, truncation.",
     "Vector tests cover fixed strings; they do not vary damage positions, mixed faults, size limits or trailing-bit patterns.",
     ["src/encoding.c"],
     [("strict alphabet tables and trailing-bit checks", "src/encoding.c: *_decode0, base64_check_padding"),
      ("BCH checksums", "src/encoding.c:bech32_polymod, cash32_polymod")],
     observe=["decode results and test predicates against independent models; output buffers with guard bytes"])

prop("C18", "Running out of memory fails cleanly, never wrongly",
     "If any memory allocation made during any operation fails, the operation either reports failure or terminates the process at that point, unless it completes with the correct result; it never reports success with a wrong result, never accepts a signature, key or ciphertext it should reject, never corrupts memory, and leaks nothing. Afterwards the same operation succeeds with the correct result as soon as memory is available.",
     ["fault_sequences", "histories"],
     "For every operation that allocates, every subset and position of failing allocations, and every history before and after.",
     "No test makes an allocation fail.",
     ["src/encoding.c", "src/kdf.c", "src/rsa.c", "src/dsa.c", "src/mpi.c", "src/ecc.c", "src/internal.c"],
     [("checked allocation with abort", "src/mpi.c:mp_alloc, src/ecc.c:checked_malloc"),
      ("goto-fail cleanup returning zero", "src/kdf.c:scrypt_derive, src/rsa.c, src/encoding.c:base58_encode")],
     observe=["return codes, outputs, process termination, heap balance under injected allocation failures"],
     hook="none: allocator functions are imported symbols")

prop("C19", "Threads using the library never influence each other",
     "Any number of threads may use the library at the same time on their own data, sharing only read-only curve contexts, and every call gives exactly the result it would give alone, under every interleaving. No call keeps hidden mutable state that another thread's call can disturb.",
     ["schedules", "histories"],
     "For every pair and mix of operations and every preemption point inside them.",
     "The thread test only calls the random generator, on one schedule chosen by the operating system; no other function is ever run concurrently.",
     ["src/hash.c", "src/cipher.c", "src/ecc.c", "src/mpi.c", "src/rsa.c", "src/dsa.c", "src/kdf.c", "src/encoding.c", "src/drbg.c", "src/rand.c"],
     [("all state lives in caller-provided contexts, stack or private heap", "every source file"),
      ("curve contexts are read-only during operations", "src/ecc.c")],
     observe=["results of each call under controlled interleavings against its sequential result"],
     hook="none: memory-access instrumentation is added by the compiler, scheduling by the simulator")

prop("C20", "Every build configuration computes the same results",
     "Nodes running different builds of the library (with or without inline assembly, with or without 128-bit integers, 32-bit or 64-bit arithmetic back ends, optimised or debug) that execute the same history of operations on the same inputs produce byte-identical results and the same accept/reject decisions; values drawn at random from a caller's seed (generated keys, blinding) may differ between word sizes but must be as valid. A history that succeeds on one build never fails, crashes or hangs on another.",
     ["configurations", "histories", "inputs"],
     "For every pair of build configurations and every history of operations over all primitives, with inputs biased to carry, borrow and reduction boundaries.",
     "Each configuration is tested alone against fixed vectors; nothing compares configurations on inputs that reach rare carries and reductions.",
     ["src/fields/*.h", "src/ecc.c", "src/mpi.c", "src/mac.c", "src/hash.c", "src/cipher.c", "src/stream.c", "src/util.c", "src/internal.h", "src/bio.h"],
     [("parallel 32-bit and 64-bit field back ends", "src/fields/*_32.h, src/fields/*_64.h"),
      ("portable replacements for assembly and wide multiplication", "src/mpi.c, src/mac.c")],
     observe=["result logs of replicas built in different configurations"])

prop("C21", "Big-integer variables hold exact values through any program",
     "In any program over big-integer variables, after every call each variable holds exactly the integer that mathematics prescribes and every returned answer is the right one, whichever variables are both input and output, whatever the variables or their storage held before, and whether storage was grown, shrunk, borrowed read-only or written directly. This covers signed arithmetic, every division and rounding convention, bit operations in two's complement, shifts, roots, gcd and modular operations, symbols, primality, sequences, text and byte conversions and the word-array routines beneath; variables not named as outputs never change and releasing all variables releases all memory.",
     ["histories", "inputs"],
     "For every sequence of operations on a set of variables, every aliasing of operands, every storage history and values of any size and sign, biased to carry and word boundaries.",
     "Tests call each routine on fresh variables with a few vectors; results that depend on aliasing, stale storage or earlier operations are never compared with an independent implementation.",
     ["src/mpi.c", "include/torsion/mpi.h"],
     [("in-place operation and storage growth with aliased operands", "src/mpi.c"), ("carry, borrow and sign handling of every routine", "src/mpi.c")],
     observe=["value of every variable and every returned answer after every step against an independent implementation"])

prop("C22", "Memory given back holds no key material",
     "When the library gives a block of heap memory back to the allocator, or moves it to grow it, the block no longer contains private keys, prime factors, secret exponents, nonces, decrypted or to-be-encrypted plaintext, shared secrets, blinding values, or the intermediate blocks and password of a memory-hard derivation. This holds for every private-key operation and key conversion, whether it succeeds, is refused because of damaged or inconsistent input, or fails for lack of memory.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "For every sequence of private-key operations, every way a stored key or ciphertext may be damaged, every failing allocation, and every moment at which a block is given back.",
     "Tests never look at memory after it was freed, and a missed wipe changes no result.",
     ["src/rsa.c", "src/dsa.c", "src/mpi.c", "src/ecc.c", "src/kdf.c"],
     [("clearing of key structures, temporaries and work buffers on every way out", "src/rsa.c, src/dsa.c, src/kdf.c, src/ecc.c"), ("growth and release of integer storage", "src/mpi.c")],
     observe=["content of every heap block at the moment it is released or moved"])

NA = [
 ("C30", "Secret-dependent branches and memory accesses do not occur",
  "The time and memory-access pattern of operations on secret data do not depend on the secret values.",
  ["inputs"], "For all secret inputs of all private-key, MAC-comparison and cipher operations.",
  "Existing constant-time tests taint fixed inputs on one build only.",
  ["src/ecc.c", "src/mpi.c", "src/util.c", "src/rsa.c"], [("branch-free selection and table scans", "src/ecc.c, src/mpi.c, src/util.c")]),
 ("C31", "Block ciphers and compression functions equal their standards on single blocks",
  "For every key and every block, each block cipher computes the permutation its standard defines, and decryption is its inverse.",
  ["inputs"], "For all keys and single blocks.",
  "Vectors are finitely many.", ["src/cipher.c"], [("table and round implementations", "src/cipher.c")]),
 ("C32", "Key derivation functions equal their definitions",
  "For every password, salt and cost parameter, the password and key derivation functions return the bytes their definitions prescribe.",
  ["inputs"], "For all inputs and parameters.",
  "Vectors are finitely many.", ["src/kdf.c"], [("loop structure of each derivation function", "src/kdf.c")]),
 ("C33", "Uniform encodings of points are inverse to hashing onto the curve",
  "Mapping uniform bytes to a point and back with the right hint returns a preimage of the same point, and hashing to the curve always yields a valid point.",
  ["inputs"], "For all uniform byte strings and hints on all curves.",
  "A few random samples per curve.", ["src/ecc.c"], [("Elligator, SSWU and SVDW maps", "src/ecc.c")]),
]
for (i, t, s, o, q, w, f, m) in NA:
    prop(i, t, s, o, q, w, f, m)

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, sort_keys=False) + "\n")

main()
