# technique and level note of every claimed property
G = 'Random exploration, no proof: holds on the counted generated cases. Trusts the independent reference model (harness/ref.cc, cross-checked by tools/selftest.py), the compiler and this CPU. '
TECH = {
 'P01': ('differential property-based testing against an independent RFC 7748 model, directed and random generators, shrinking', G + 'Peer values are biased to non-canonical, low-order, twist and solved-intermediate values.'),
 'P02': ('differential and metamorphic (agreement) property-based testing', G + 'Keys random and structured (runs, sparse, extreme words).'),
 'P03': ('differential property-based testing against an independent RFC 7748 model, directed and random generators, shrinking', G),
 'P05': ('differential property-based testing against an independent RFC 8032 signing model; direct scalar-reduction differential', G + 'Public key operand is always the matching one.'),
 'P06': ('differential property-based testing against an RFC 8032 decision procedure: honest, mutated, mixed-order, small-order and non-canonical inputs', G + 'The oracle is the cofactorless decision that this library implements.'),
 'P07': ('differential property-based testing against an independent RFC 8032 signing model', G),
 'P08': ('differential property-based testing against an RFC 8032 decision procedure: honest, mutated, mixed-order, small-order and non-canonical inputs', G + 'One known finding (keys with a small-order component) is recognised by predicting its exact decision.'),
 'P09': ('property-based testing of refusal and domain separation: all scheme pairs, long contexts at guard pages', G),
 'P10': ('property-based differential testing against integers mod p, operands solved for boundaries; random operation chains', G),
 'P11': ('stateful model-based property testing: random operation sequences over registers, every lane checked against integers mod p', G + 'Sequences follow the operand discipline of the library (one addition or subtraction between compressions).'),
 'P12': ('property-based differential testing against integers mod p, operands solved for boundaries; random operation chains', G),
 'P13': ('stateful model-based property testing: random operation sequences over registers, every lane checked against integers mod p', G + 'Sequences follow the operand discipline of the library (one addition or subtraction between compressions).'),
 'P04': ('differential and metamorphic (agreement) property-based testing', G),
 'P14': ('property-based testing against exact modular arithmetic (inverse, quotient root, power), structured and non-canonical operands', G),
 'P15': ('property-based round-trip and differential testing of encodings, comparison and parity against integers', G + 'Elements are built over all representatives: non-canonical, near multiples of p, uncompressed limbs.'),
 'P16': ('metamorphic property-based testing: change some lanes, the others must not move; multi-lane vs one-lane differential', G),
 'P17': ('differential property-based testing against an independent Elligator 2 / hash-to-field model, exceptional inputs solved for', G),
 'P18': ('property-based testing of the group law and predicates against an affine model, all scalings and representatives', G),
 'P19': ('stateful property-based testing: random splits, alignments, trailing bits, context reuse and copies, against FIPS 180-4', G),
 'P20': ('differential property-based testing of both lanes against FIPS 180-4, lengths up to beyond 2^32 bytes', G),
 'P21': ('stateful property-based testing: random splits and output lengths, against FIPS 202', G),
 'P22': ('property-based testing of memory discipline: exact buffers at guard pages and read-only inputs, roomy-versus-exact differential, AddressSanitizer build', G + 'Accesses of inline assembly are seen when they leave a page-guarded buffer, accesses of C byte by byte.'),
 'P23': ('stateful metamorphic property-based testing: call histories replayed in other orders and surroundings, concurrent threads, ThreadSanitizer build', G + 'Schedules are those the operating system produced.'),
 'P24': ('differential property-based testing across build configurations: the same generated calls in 16 (quick) or 30 (thorough) differently compiled copies of the library', G + 'Configurations are a fixed list of compilers, levels, instruction sets and swap methods.'),
 'P27': ('metamorphic property-based testing: the call on coinciding buffers against the same call on distinct buffers with equal contents, all operations and coincidence patterns', G),
 'P25': ('fault-injection property-based testing: scripted system random source interposed at link time (short reads, interruptions, open and read failures), outcome checked against the delivered stream', G + 'Interposes open, read, close, getrandom, getentropy and stdio opens made by the library.'),
 'P28': ('stateful property-based testing of allocation histories (aligned, disjoint, exact under AddressSanitizer, nothing left allocated) and round-trip testing of printed text, constants and random elements', G),
 'P29': ('property-based testing of what calls leave in memory: the call runs on a stack of its own that is searched, with the heap blocks it used and the static storage, for runs of the generated private key', 'Random exploration, no proof. Registers are not searched, nor the recoded digits of the scalar. Three builds.'),
 'P30': ('property-based testing of the calling convention: generated calls of the whole interface through a probe with random register contents, control words and stack positions, differential with the ordinary call', 'Random exploration, no proof. Six builds of the library: three instruction sets, two compilers; exceptions stay masked.'),
 'P26': ('metamorphic property-based testing on execution traces: machine-code instruction and memory-operand address trace of one private key against generated others (trap-flag single stepping of the shipped build; instrumented build for many pairs)', 'Random exploration, no proof: pairs of generated private keys. Displacements are constant per instruction, so operand addresses are compared up to them. Inline assembly is opaque in the instrumented build and fully seen when single-stepping.'),
}
NOT_APPLICABLE = {}
NOTES = 'Every command rebuilds the library from /repo; VERIF_SEED selects the generated cases; --replay FILE reruns a replay file.'
