#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the long texts stay reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=[observe])))

p("P01", "X25519 shared secret is RFC 7748 for every key and peer value",
  "For every 32-byte private key and every 32-byte peer value, the computed X25519 shared secret is the one RFC 7748 defines: the private key is clamped, the top bit of the peer value is ignored, and non-canonical, low-order and twist values are processed like any other. The AVX2 and the x64 implementation return the same 32 bytes. The private key and peer buffers are left unchanged.",
  ["inputs"], "every 32-byte private key x every 32-byte peer u-coordinate, both implementations",
  "Tests use a handful of RFC vectors, the iterated test and random comparisons against one GMP ladder; values near 0, p, 2p, 2^255, low-order points and carry-critical intermediates are never reached by uniform sampling.",
  ["src/dh255.c", "src/ladder255.c", "src/eltfp25519_1w_fullradix.c", "src/eltfp25519_2w_redradix.c"],
  [("Montgomery ladder (AVX2 and x64)", "src/ladder255.c"), ("clamping and masking", "src/dh255.c")],
  "shared secret bytes returned by the two X25519 interfaces")
p("P02", "X25519 public keys come from the base point and two parties agree",
  "For every 32-byte private key, the generated X25519 public key equals the shared-secret function applied to the base point 9, in both implementations. Consequently any two parties, whichever implementation each one uses, derive identical shared secrets from each other's public keys.",
  ["inputs"], "every 32-byte private key (pairs of keys for agreement), every pairing of implementations",
  "Key generation runs a different algorithm (fixed-base ladder over a precomputed table); a wrong table row or a wrong carry shows only for keys that select it, and tests draw few random keys.",
  ["src/dh255.c", "src/ladder255.c"],
  [("right-to-left fixed-base ladder with precomputed multiples", "src/ladder255.c"), ("keygen entry points", "src/dh255.c")],
  "public key bytes and both parties' shared secrets")
p("P03", "X448 shared secret is RFC 7748 for every key and peer value",
  "For every 56-byte private key and every 56-byte peer value, the computed X448 shared secret is the one RFC 7748 defines, including for non-canonical peer values in [p, 2^448), low-order values and values on the twist. The private key and peer buffers are left unchanged.",
  ["inputs"], "every 56-byte private key x every 56-byte peer u-coordinate",
  "Tests hold the RFC vectors and the iterated test; carry-critical and non-canonical values are not sampled.",
  ["src/dh448.c", "src/ladder448.c", "src/eltfp448_1w_fullradix.c"],
  [("Montgomery ladder", "src/ladder448.c"), ("clamping", "src/dh448.c")],
  "shared secret bytes")
p("P04", "X448 public keys come from the base point and two parties agree",
  "For every 56-byte private key, the generated X448 public key equals the shared-secret function applied to the base point 5. Consequently any two parties derive identical shared secrets from each other's public keys.",
  ["inputs"], "every 56-byte private key, pairs of keys for agreement",
  "Fixed-base path with its own precomputed table and recovery of the extra cofactor doublings; tests draw few random keys.",
  ["src/dh448.c", "src/ladder448.c"],
  [("fixed-base ladder with precomputed multiples", "src/ladder448.c"), ("keygen entry point", "src/dh448.c")],
  "public key bytes and both parties' shared secrets")
p("P05", "Ed25519 keys and signatures are exactly those of RFC 8032",
  "For every 32-byte private key, message of any length and context of at most 255 bytes, the generated Ed25519 public key and the signatures of the pure, context and pre-hash variants are byte for byte the deterministic ones RFC 8032 defines. The scalar half of every signature is fully reduced, i.e. smaller than the group order, and every 512-bit value is reduced to its canonical residue modulo the group order.",
  ["inputs"], "every private key x every message and length x every context (0..255 bytes) x three variants",
  "Tests are the RFC vectors only: lengths that straddle hash blocks, every recoding digit pattern, every table entry and rare carries in the scalar arithmetic are unvisited.",
  ["src/sign255.c", "src/ed255.c", "src/edwards255.c", "include/table_sign_w4_24k_ed25519.h"],
  [("fixed-base multiplication", "src/edwards255.c"), ("scalar arithmetic modulo the group order", "src/sign255.c"), ("variant drivers", "src/ed255.c")],
  "public key bytes, signature bytes and status codes")
p("P06", "Ed25519 verification decides exactly as RFC 8032 requires",
  "Verification accepts a (public key, message, context, signature) tuple if and only if the public key encoding decodes to a curve point, the scalar half is smaller than the group order and the recomputed commitment equals the one in the signature. Every honestly produced signature is therefore accepted, and a change to the message, context, variant, key or any bit of the signature, adding the group order to the scalar half, and malformed or non-canonical public keys are all refused, undecodable keys with the public-key error.",
  ["inputs"], "every 32-byte key string x 64-byte signature string x message x context x variant, valid, nearly valid and arbitrary",
  "Tests verify the RFC vectors and reject no forged, malleated or malformed input at all.",
  ["src/sign255.c", "src/ed255.c", "src/edwards255.c", "include/table_verf_w7_ed25519.h"],
  [("point decompression", "src/edwards255.c"), ("double-scalar multiplication", "src/edwards255.c"), ("verification driver", "src/sign255.c")],
  "status code of verification")
p("P07", "Ed448 keys and signatures are exactly those of RFC 8032",
  "For every 57-byte private key, message of any length and context of at most 255 bytes, the generated Ed448 public key and the signatures of the context and pre-hash variants are byte for byte the deterministic ones RFC 8032 defines. The scalar half of every signature is smaller than the group order and its last byte is zero.",
  ["inputs"], "every private key x every message and length x every context (0..255 bytes) x two variants",
  "Tests are the RFC vectors only, and in the shipped configuration even several of those fail; digit patterns, table entries and scalar carries are unvisited.",
  ["src/sign448.c", "src/ed448.c", "src/edwards448.c", "include/table_sign_w4_3675k_ed448.h"],
  [("fixed-base multiplication", "src/edwards448.c"), ("scalar arithmetic modulo the group order", "src/sign448.c")],
  "public key bytes, signature bytes and status codes")
p("P08", "Ed448 verification decides exactly as RFC 8032 requires",
  "Verification accepts a (public key, message, context, signature) tuple if and only if the public key encoding decodes to a curve point, the scalar half, all 57 bytes of it, is smaller than the group order and the recomputed commitment equals the one in the signature. Every honestly produced signature is therefore accepted, and a change to the message, context, variant, key or any bit of the signature, adding the group order to the scalar half, and malformed or non-canonical public keys are all refused, undecodable keys with the public-key error.",
  ["inputs"], "every 57-byte key string x 114-byte signature string x message x context x variant, valid, nearly valid and arbitrary",
  "Tests verify the RFC vectors and reject no forged, malleated or malformed input at all.",
  ["src/sign448.c", "src/ed448.c", "src/edwards448.c", "include/table_verf_w7_ed448.h"],
  [("point decompression", "src/edwards448.c"), ("double-scalar multiplication", "src/edwards448.c"), ("verification driver", "src/sign448.c")],
  "status code of verification")
p("P09", "Signature contexts and variants are separated and length-checked",
  "A signature made under one variant (pure, context, pre-hash) and context verifies under exactly that variant and context and under no other, for both signature schemes; an empty context in the Ed448 context variant is an ordinary context. Contexts longer than 255 bytes are refused with the context error by signing and verification alike, and a refused signing call writes nothing to the signature buffer.",
  ["inputs"], "every pair of variants x every pair of contexts (including prefixes, extensions, embedded zero bytes) x context lengths 0..255 and beyond",
  "Tests never verify under a different context or variant and never pass an over-long context.",
  ["src/ed255.c", "src/ed448.c", "src/sign255.c", "src/sign448.c"],
  [("domain-separation prefix", "src/sign255.c"), ("domain-separation prefix", "src/sign448.c"), ("variant drivers", "src/ed255.c"), ("variant drivers", "src/ed448.c")],
  "status codes and contents of the signature buffer")
p("P10", "Fp25519 full-radix arithmetic is exact modulo 2^255-19",
  "For all 256-bit operands, canonical or not, full-radix addition, subtraction, negation, multiplication, squaring, multiplication by the curve constant and conditional move return a value congruent modulo 2^255-19 to the mathematical result. The integer multiply, square and reduce steps, single and double width, are exact: products equal the 512-bit integer product and reduction preserves the residue for every 512-bit input.",
  ["inputs"], "all 256-bit operand words and all 512-bit double-width buffers",
  "Uniform random operands reach the second and third carry folds with probability below 2^-50.",
  ["src/eltfp25519_1w_fullradix.c", "src/fp255.c", "include/faz_fp_avx2.h"],
  [("multiply/square/reduce assembly", "src/eltfp25519_1w_fullradix.c"), ("add/sub/cmov assembly", "src/eltfp25519_1w_fullradix.c")],
  "operand buffers after each exported field operation")
p("P11", "Fp25519 reduced-radix arithmetic is exact modulo 2^255-19 in every lane",
  "For every sequence of one-, two- and four-lane reduced-radix operations (add, subtract, add-subtract, negate, selective negate, multiply, square, compress, conditional move) that respects the one-addition-between-compressions discipline the library itself uses, each lane holds a value congruent modulo 2^255-19 to the same sequence evaluated on integers.",
  ["inputs", "histories"], "all limb patterns an element can hold after decoding or compression, all operation sequences within the carry discipline, all lanes",
  "Tests multiply random elements once; 32-bit lane overflows appear only with near-maximal limbs, after particular add/sub histories, and the multi-lane checks in the suite compare nothing.",
  ["src/eltfp25519_1w_redradix.c", "src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/fp255.c"],
  [("vector multiply and square", "src/eltfp25519_4w_redradix.c"), ("carry propagation", "src/eltfp25519_2w_redradix.c"), ("dispatch table", "src/fp255.c")],
  "element values after each step, read through serialisation or limb evaluation")
p("P12", "Fp448 full-radix arithmetic is exact modulo 2^448-2^224-1",
  "For all 448-bit operands, canonical or not, full-radix addition, subtraction, negation, multiplication, squaring, multiplication by the curve constant and conditional move return a value congruent modulo 2^448-2^224-1 to the mathematical result. The integer multiply, square and reduce steps, single and double width over adjacent elements, are exact: products equal the 896-bit integer product and reduction preserves the residue for every 896-bit input.",
  ["inputs"], "all 448-bit operand words and all 896-bit double-width buffers",
  "Uniform random operands reach the late carry folds with probability below 2^-60; the double-width entry points have no test.",
  ["src/eltfp448_1w_fullradix.c", "src/fp448.c", "include/faz_fp_avx2.h"],
  [("multiply/square/reduce assembly", "src/eltfp448_1w_fullradix.c")],
  "operand buffers after each exported field operation")
p("P13", "Fp448 reduced-radix arithmetic is exact modulo 2^448-2^224-1 in every lane",
  "For every sequence of one-, two- and four-lane reduced-radix operations (add, subtract, add-subtract, negate, selective negate, multiply, square, compress) that respects the one-addition-between-compressions discipline the library itself uses, each lane holds a value congruent modulo 2^448-2^224-1 to the same sequence evaluated on integers.",
  ["inputs", "histories"], "all limb patterns an element can hold after decoding or compression, all operation sequences within the carry discipline, all lanes",
  "The suite has no reduced-radix test for this field beyond vacuous comparisons; Karatsuba intermediates overflow only with extreme limbs.",
  ["src/eltfp448_1w_redradix.c", "src/eltfp448_2w_redradix.c", "src/eltfp448_4w_redradix.c", "src/fp448.c"],
  [("Karatsuba multiply and square", "src/eltfp448_2w_redradix.c"), ("carry propagation", "src/eltfp448_4w_redradix.c")],
  "element values after each step, read through serialisation or limb evaluation")
p("P14", "Field inversion and square-root exponentiation are exact",
  "In both fields and every representation that offers it, inverting any element x gives y with x*y = 1, and inverting zero gives zero, whatever representative of the residue class is supplied. The square-root operation of the first field replaces its first operand c by a square root of c/a whenever that quotient is a square, and that of the second field returns the power (p-3)/4 of its argument, the inverse square root of every nonzero square.",
  ["inputs"], "all field elements including 0, 1, p-1, non-canonical representatives and non-squares",
  "Tests invert a few random elements; zero, non-canonical and the fixed addition chains' intermediate extremes are not covered, square roots not at all.",
  ["src/eltfp25519_1w_fullradix.c", "src/eltfp25519_1w_redradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_1w_redradix.c"],
  [("addition chains", "src/eltfp25519_1w_fullradix.c"), ("addition chains", "src/eltfp448_1w_fullradix.c")],
  "resulting element modulo p")
p("P15", "Element encoding is canonical and comparison and parity follow the residue",
  "In both fields and every representation, serialising any element yields the unique little-endian encoding of its residue below p, parsing any byte string yields an element of that residue, and parse after serialise is the identity on residues. Comparison reports equality exactly when the residues are equal, and parity is that of the canonical residue, for every representative an operation can produce.",
  ["inputs"], "all elements in every representation (canonical, non-canonical, compressed or one addition away) and all byte strings",
  "Tests round-trip random bytes; representatives in [p, 2^k), values at p+-1, 2p+-1 and uncompressed limbs with pending carries are not generated.",
  ["src/eltfp25519_1w_fullradix.c", "src/eltfp25519_1w_redradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_1w_redradix.c", "src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/bytestring.c"],
  [("final reduction", "src/eltfp25519_1w_fullradix.c"), ("limb to byte conversion", "src/eltfp448_1w_redradix.c"), ("comparison", "src/bytestring.c")],
  "serialised bytes, comparison and parity results")
p("P16", "Multi-lane operations act lane by lane",
  "Every two- and four-lane field operation produces in each lane the value the corresponding one-lane operation produces from that lane's operands alone, so changing the contents of one lane never changes another. Packing elements into lanes, unpacking them, and the multi-lane parse, serialise, copy, zero and compare operations preserve lane order and contents.",
  ["inputs"], "all lane contents, all operations, every choice of which lanes change",
  "Tests put related random values in the lanes and compare with a predicate that accepts anything.",
  ["src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/eltfp448_2w_redradix.c", "src/eltfp448_4w_redradix.c", "src/fp255.c", "src/fp448.c"],
  [("lane packing", "src/eltfp25519_2w_redradix.c"), ("lane packing", "src/eltfp448_4w_redradix.c"), ("dispatch tables", "src/fp255.c")],
  "per-lane serialised values")
p("P17", "Hash-to-curve follows its definition and both implementations agree",
  "For every message of every length, hashing to the curve returns the point obtained by hashing the message with one-byte prefixes 0 and 1 with SHA-512, reducing modulo the group order, mapping both values with Elligator 2 to edwards25519, clearing the cofactor and adding. The x64 and the AVX2 implementation return the same point, and the element map itself is right for every field element, exceptional ones included.",
  ["inputs"], "every message and length; every field element (pair) for the map",
  "The test compares both implementations on one fixed-size message per iteration and checks curve membership only; no independent definition, no exceptional field elements.",
  ["src/hash255.c", "third_party/sha512_2way.c", "src/edwards255.c"],
  [("Elligator 2 maps", "src/hash255.c"), ("hash to field", "src/hash255.c")],
  "affine coordinates modulo p")
p("P18", "Curve point operations obey the group law",
  "Adding any two points of edwards25519, including equal, opposite, identity and small-order ones in any projective scaling, yields their sum, and the result is again a valid extended point. The membership predicate holds exactly for points on the curve and the point comparison exactly for equal points, whichever representatives the coordinates use.",
  ["inputs"], "all pairs of curve points in all projective scalings and coordinate representatives; all coordinate pairs for the predicates",
  "Tests only add points produced by hashing; doubling through addition, identity, torsion and off-curve inputs are absent.",
  ["src/hash255.c", "src/edwards255.c", "include/faz_hash_avx2.h"],
  [("extended addition", "src/edwards255.c"), ("predicates", "src/hash255.c")],
  "result coordinates and predicate values")
p("P19", "SHA-512 digests depend only on the concatenated input",
  "For every message and every way of splitting it into update calls, empty and unaligned pieces included, the SHA-512 and SHA-384 digests equal those of FIPS 180-4. Trailing bits supplied at closing are hashed as the standard defines, and a context is ready for a fresh message after closing.",
  ["inputs", "histories"], "all messages, all splits into updates, all alignments, all trailing-bit counts, context reuse",
  "Tests never split a message or vary lengths around block boundaries.",
  ["third_party/sha512.c", "third_party/sha512.h"],
  [("buffering and padding", "third_party/sha512.c")],
  "digest bytes")
p("P20", "Two-way SHA-512 equals two independent SHA-512 computations",
  "For every length and every pair of messages of that length, the two-way hash writes the SHA-512 digest of each message to its own output, independently of the other message and of buffer alignment.",
  ["inputs"], "all lengths (0, block and padding boundaries, multi-block, very long) x all message pairs x all alignments",
  "No test targets the two-way hash except through hash-to-curve at fixed sizes.",
  ["third_party/sha512_2way.c", "third_party/multi_hash.h"],
  [("two-way compression and padding", "third_party/sha512_2way.c")],
  "digest bytes")
p("P21", "SHA-3 and SHAKE outputs follow FIPS 202 for all lengths and splits",
  "For every byte message, every split into update calls and every requested output length, the incremental and one-shot SHAKE128 and SHAKE256 functions return the FIPS 202 output. The fixed-length SHA-3 functions return the FIPS 202 digest and write exactly the digest length to the caller's buffer.",
  ["inputs", "histories"], "all messages and splits x output lengths 0..many blocks x SHA3-224/256/384/512, SHAKE128/256",
  "Nothing in the suite calls these functions directly; they are exercised only through a few signature vectors.",
  ["third_party/sha3.c", "third_party/sha3.h"],
  [("sponge absorb and squeeze", "third_party/sha3.c")],
  "output bytes and surrounding memory")
p("P22", "Calls touch only the caller's buffers and never modify their inputs",
  "With every buffer of exactly its documented size, at any byte alignment for byte-string arguments, and for all argument values, no call of the key agreement, signature, hashing, encoding or field interfaces reads or writes outside those buffers, reads uninitialised memory into its result, modifies an input that is not also an output, or has undefined behaviour that crashes.",
  ["inputs"], "all calls of the public interfaces x all argument values x message and context lengths including zero x buffer alignments",
  "Tests allocate roomy or stack buffers, so an overrun of a few bytes goes unnoticed.",
  ["src/dh255.c", "src/dh448.c", "src/sign255.c", "src/sign448.c", "src/hash255.c", "third_party/sha512.c", "third_party/sha3.c", "third_party/sha512_2way.c", "src/bytestring.c"],
  [("buffer handling in the public entry points", "src/sign255.c"), ("hash buffering", "third_party/sha3.c")],
  "guarded memory around every buffer, sanitizer reports, input buffers after the call")
p("P23", "Every operation is stateless and safe to call concurrently",
  "The result of every call depends only on its arguments: the same call gives the same bytes whatever calls preceded it, whatever garbage the stack, registers and output buffers held, and however many threads run other calls at the same time.",
  ["histories", "schedules"], "all call histories and all concurrent interleavings of calls on separate buffers",
  "Tests are single-threaded and never compare a call repeated in a different history.",
  ["src/dh255.c", "src/ladder255.c", "src/sign255.c", "src/sign448.c", "src/hash255.c", "src/edwards255.c", "src/edwards448.c"],
  [("absence of hidden mutable state", "src/target.c")],
  "outputs of repeated and concurrent calls")
p("P24", "All build configurations compute the same results",
  "Built for processors with BMI2 and ADX, with BMI2 only, or with neither, at any optimisation level, with gcc or clang, position independent or not, and with each of the supported conditional-swap methods, the library returns the same bytes for the same calls.",
  ["configurations", "inputs"], "instruction-set options x compilers x optimisation levels x swap methods, for all inputs of the key agreement, signature, hashing and full-radix field interfaces",
  "The suite runs in one configuration, the build machine's native one, so the other code paths are never executed.",
  ["src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c", "src/ladder255.c", "src/ladder448.c", "src/bytestring.c"],
  [("instruction-set specific variants selected at compile time", "src/eltfp25519_1w_fullradix.c"), ("conditional swap", "src/ladder255.c")],
  "outputs of the same calls across configurations")
p("P25", "Random bytes are delivered in full whatever the system source does",
  "A request for random bytes or a random key returns only after every requested byte, and no byte beyond, has been written from the system random source, even if the source delivers in small pieces or is interrupted. If the source cannot be opened or fails, the caller is never handed a buffer with unwritten bytes as if it were random, and descriptors are not leaked.",
  ["fault_sequences", "inputs"], "all request sizes x all sequences of short reads, interruptions, open and read failures",
  "Tests only call it with a healthy source.",
  ["third_party/prng.c", "src/dh255.c", "src/ed255.c", "src/ed448.c", "src/dh448.c"],
  [("read loop", "third_party/prng.c")],
  "buffer contents, process outcome and open descriptors under an interposed source")
p("P26", "Secret-key operations execute independently of the secret",
  "For fixed public inputs, the sequence of branches taken and memory addresses accessed while generating X25519 and X448 public keys and shared secrets, and Ed25519 and Ed448 keys and signatures, is the same for every private key.",
  ["inputs"], "all pairs of private keys for the same public inputs",
  "No test observes execution traces.",
  ["src/ladder255.c", "src/ladder448.c", "src/edwards255.c", "src/edwards448.c", "src/sign255.c", "src/sign448.c"],
  [("conditional swap", "src/ladder255.c"), ("constant-time table lookup", "src/edwards255.c"), ("constant-time table lookup", "src/edwards448.c")],
  "branch and address trace")
p("P27", "Operations give the same result when buffers coincide",
  "Every field operation gives the same result when its output is one of its inputs or its inputs are the same element, as when all are distinct. Key agreement gives the same result when the output buffer is the buffer of the private key or of the peer value.",
  ["inputs"], "all coincidences of operand buffers x all operand values",
  "Tests alias only incidentally, in a few patterns.",
  ["src/eltfp25519_1w_fullradix.c", "src/eltfp25519_1w_redradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_1w_redradix.c", "src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/dh255.c", "src/dh448.c"],
  [("load-before-store order in assembly", "src/eltfp25519_1w_fullradix.c")],
  "operand buffers after the call")
p("P28", "Buffer, constant and text helpers are faithful",
  "Allocation returns distinct buffers of the documented size with the alignment the vector code needs, and freeing accepts what was allocated and the null pointer; no other call keeps heap memory after it returns. Printed keys, signatures, points and field elements parse back to exactly the bytes or residues printed. The advertised key and signature sizes, the prime constants and the zero and copy helpers are exact, the erasing fill writes exactly the bytes asked for, and random elements are valid elements.",
  ["inputs", "histories"], "all values printed, all allocation/free histories, all representations",
  "Tests print nothing and check no allocation property.",
  ["src/bytestring.c", "src/dh255.c", "src/dh448.c", "src/ed255.c", "src/ed448.c", "src/fp255.c", "src/fp448.c", "src/hash255.c"],
  [("print and allocation helpers", "src/bytestring.c")],
  "returned pointers, printed text, buffer contents")

p("P29", "Key agreement leaves no copy of the private key in memory",
  "After generating an X25519 or X448 public key or shared secret returns, whatever the key and the peer value, the memory the call used (its stack frames, heap blocks, static storage) holds neither the private key, nor its clamped form, nor, where the base point is multiplied, that form divided by the cofactor (8 or 4): no run of 16 or more of their bytes remains outside the caller's own buffer. The working copy is really erased, in the optimised build and on every path out of the call.",
  ["inputs"], "all private keys x all peer values, the special ones included",
  "Tests compare results only; the memory left behind is invisible to them.",
  ["src/ladder255.c", "src/ladder448.c", "src/edwards255.c", "src/edwards448.c", "src/bytestring.c"],
  [("erasure of the clamped scalar", "src/ladder255.c"), ("erasure of the clamped scalar", "src/ladder448.c"), ("erasing fill that optimisation keeps", "src/bytestring.c")],
  "stack, heap and static memory after the call")
p("P30", "Calls preserve the caller's machine state",
  "Every function of the interface can be called from any correctly compiled program: after the call the callee-saved registers, the stack pointer, the control bits of MXCSR and of the x87 unit, the empty x87/MMX register stack and the direction flag are as before. The result depends neither on the rounding and denormal modes in force nor on where the stack happens to lie.",
  ["inputs"], "all calls x all register contents, control words and stack positions",
  "Test programs are compiled one way, so a register that goes wrong usually holds nothing of importance.",
  ["src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp448_1w_redradix.c", "src/ladder255.c", "src/ladder448.c", "src/bytestring.c"],
  [("clobber lists of the assembly", "src/eltfp25519_1w_fullradix.c"), ("clobber lists of the assembly", "src/eltfp448_1w_fullradix.c")],
  "registers and control words around the call")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
