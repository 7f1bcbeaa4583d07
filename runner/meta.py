ENGINE = ("The real generic functions of /repo are compiled with a symbolic field type in place of the field: running them records the "
          "exact operation graph over symbolic variables, path by path. z3 decides, for all field values, equality of that graph with an "
          "independently written specification, pair of nodes by pair of nodes, from the operands up; branches on data are flipped and explored. ")
TREES = ("The crate in /repo is compiled against stand-ins for the crates its trees take their leaf types from (sha2, pasta_curves, jubjub), in which a leaf "
         "is a term of the symbolic store; the real tree code then builds the term of the root, and z3 decides that it equals the term of the padded complete "
         "binary tree, for all leaves. Comparisons the code makes are branches, flipped and explored. A counterexample is replayed on the real leaf types before it is reported. ")
ASSUME = ["the field type of ark-ff (and of the six shipped fields) implements the field laws; its limb arithmetic is not encoded",
          "z3 is sound", "the code is deterministic apart from its random draws, which are symbolic variables"]
PROPS = {
 "C01": dict(explanation=ENGINE + "Oracle: a direct transcription of the Poseidon2 specification.",
   bounds="t in {2,3,4,8,12,16,20,24}; d in {3,5,7,11}; (rf,rp) in {(2,2),(4,1),(0,3),(2,0)} for every (t,d), plus one or two long schedules (8,56)/(8,22) per t; thorough adds (0,0),(4,4),(6,5),(8,13). All field values of input state, round constants and (t>=4, two splits) internal diagonal. Up to 24 paths per configuration.",
   outside="other round splits; symbolic diagonal with long schedules; t=2,3 with a diagonal other than the published one (the code hard-wires it); partial-round constant rows with non-zero entries past the first",
   assumptions=ASSUME),
 "C03": dict(explanation=ENGINE + "Oracle: the textbook Poseidon schedule (constants, S-box, MDS every round). The MDS matrix is symbolic for small t and concrete (per field) above, where the derived constants involve its inverse.",
   bounds="t in 2..24 (all shipped sizes, plus 5, 6, 9), d in {3,5,7}; round splits from (2,1) up to (4,4) with symbolic constants and input at every t, symbolic MDS for t=2,3, long schedules (8,56),(8,22) with concrete MDS. Up to 24 paths per configuration.",
   outside="rounds beyond the listed splits, symbolic MDS at t>3", assumptions=ASSUME),
 "C05": dict(explanation=ENGINE + "The random round constants are symbolic draws. Oracle: the unbalanced Feistel specification.",
   bounds="t in 2..24; rounds in {1,2,t-1,t,t+1,2t+3} (thorough 1..3t+1) plus six long schedules; d in {3,5,7}; all inputs and all round constants.",
   outside="other round numbers", assumptions=ASSUME),
 "C06": dict(explanation=ENGINE + "Randomly drawn round constants, gamma, diagonal and external matrix are symbolic draws. Oracle: the Neptune specification evaluated with the parameters the object holds (read through Debug).",
   bounds="even t in 2..24, d in {3,5,7}, small round splits at every t and the shipped long schedules at t=4,8; all inputs and all drawn parameters. Up to 24 paths per configuration.",
   outside="other round splits", assumptions=ASSUME),
 "C07": dict(explanation=ENGINE + "The operation graph of the permutation is closed backwards from its outputs: a node that is an invertible affine combination of determined ones is determined, u^k determines u where gcd(k,p-1)=1, u determines u^k. Each step is a certificate that z3 checks over the graph for all field values; when all inputs are determined by the outputs, no two inputs collide. A path with a condition on the data must also equal the specification. Where the closure is stuck, a colliding pair is built (kernel direction, roots of unity, running the specification backwards) and must collide in the real code before it is reported.",
   bounds="every shipped Poseidon2, Poseidon, GMiMC and Neptune parameter set at full round numbers; generic shapes: Poseidon2 all eight t with d in {3,5,7,11}, Poseidon eight t, GMiMC every t in 2..24, Neptune nine even t, d in {3,5,7}, one short round split each (thorough: five splits, including (8,22)); all pairs of input states; up to 16 paths.",
   outside="degrees not coprime to p-1 and singular matrices (not injective by nature); other parameter values than one fixed set per generic shape; Neptune's and GMiMC's random parameters are one fixed draw", assumptions=ASSUME + ["u -> u^k is a bijection of a prime field when gcd(k,p-1)=1", "the Debug output of a parameter object shows the values it computes with"]),
 "C08": dict(explanation=ENGINE + "The hash handed to the real tree is an uninterpreted function; equality of the two terms is decided by z3 over uninterpreted functions.",
   bounds="every list length 1..=72 (thorough 1..=600) plus 95..97, 127..130, 255..257, 300, 511..513, 1000, 1023..1025, 2047..2049, 4095..4097 (thorough up to 65537); sequences of calls with lists of different lengths, and of lists of one length that share, alter or reorder elements, on one object; arbitrary leaves, arbitrary two-to-one hash.",
   outside="longer lists", assumptions=ASSUME),
 "C09": dict(engines=[("trees", "checked")], explanation=TREES + "The digest functions are uninterpreted: their output is a term over the sequence of digests (and other bytes) absorbed since the last reset, so left-over state, order and padding all show.",
   bounds="every list length 1..=72 (thorough 1..=400) plus 95..97, 127..130, 255..257, 300, 511..513, 1000, 1024, 1025, 2048, 2049; digest sizes of 28, 32, 48 and 64 bytes; ten call histories of up to 40 calls per size, and histories of lists of one length that share, alter or reorder elements, on one object and its clones, new() and default(); arbitrary leaves, arbitrary digest function; up to 24 paths where the code compares digests.",
   outside="longer lists; branches on single bytes of a digest (a stand-in digest carries the name of its term, so only comparisons of whole digests are symbolic)", assumptions=ASSUME + ["the stand-in crate sha2 offers the digest traits with the semantics documented for digest 0.10"]),
 "C10": dict(engines=[("trees", "checked")], explanation=TREES + "The hash is an uninterpreted function per level.",
   bounds="Orchard and Sapling trees, every list length 1..=72 (thorough 1..=400) plus 95..97, 127..130, 255..257, 300, 511..513, 1000, 1024, 1025, 2048, 2049; ten call histories of up to 40 calls on one object and its clones; arbitrary leaves, arbitrary level-dependent hash; up to 24 paths where the code compares leaves.",
   outside="longer lists", assumptions=ASSUME + ["the stand-ins for pasta_curves and jubjub behave as the prime fields they name"]),
 "C11": dict(explanation=ENGINE + "Oracle: first element of the specification of the permutation on (left, right, zeros).",
   bounds="all six fields with symbolic or shipped parameters, compress of Poseidon2 (t=3), Poseidon (t=3), GMiMC (t=3), Neptune (t=4); all pairs (left, right); small and shipped round numbers.",
   outside="compression with other state sizes (the traits are not meant for them)", assumptions=ASSUME),
 "C12": dict(profiles=["checked", "release"], explanation=ENGINE + "Oracle: both products of matrix and result are the identity; a rejection is right only where the determinant is zero on that path. Run with and without debug assertions.",
   bounds="mat_inverse: n=1,2 fully symbolic; n<=4 permutation times symbolic diagonal (every permutation); n<=3 permutation times symbolic lower triangle; concrete matrices with a symbolic row (n<=4), a symbolic entry (n<=16, three row orders), a symbolic row factor (n<=24) or a symbolic scalar (n<=8); equal rows rejected (n=2). Transpose and products: all shapes up to 5x5 (thorough 8x8) and 8,12,24 square, fully symbolic. Up to 40 paths.",
   outside="fully symbolic matrices of size 3 and more (thorough tries n=3), where the identities exceed the prover", assumptions=ASSUME),
 "C02": dict(explanation=ENGINE + "The parameters are those of the shipped static objects, read back from the built library; the oracle is the specification evaluated with golden/*.json, the published parameters, which tools/grain.py reproduced independently (Grain LFSR). The concrete shipped object is also run on its own field type as a binding of the object to the encoding.",
   bounds="all 15 shipped Poseidon2 parameter sets at full round numbers, every input state.",
   outside="fields and sizes that are not shipped (C01 covers the generic code)", assumptions=ASSUME + ["the Debug output of a parameter object shows the values it computes with"]),
 "C04": dict(explanation=ENGINE + "Parameters of the shipped static Poseidon objects; oracle: textbook Poseidon with golden/*.json (published parameters, reproduced independently by tools/grain.py). Both the optimised and the plain permutation.",
   bounds="all 15 shipped Poseidon parameter sets at full round numbers, every input state.",
   outside="fields and sizes that are not shipped (C03 covers the generic code)", assumptions=ASSUME + ["the Debug output of a parameter object shows the values it computes with"]),
 "C14": dict(explanation=ENGINE + "Every random draw of the real constructors is a symbolic variable; each parameter must be a draw of its own (an invertible affine function of one variable no other parameter uses, not redrawn when zero unless it must not be zero), and the zero draws are explored as branches of the retry loops.",
   bounds="GMiMC: t in 2..24, rounds up to 3t; Neptune: even t in 2..24, several round splits; random_scalar_without_0: up to the stated number of zero draws in a row; all outcomes of every draw.",
   outside="the quality of the operating system's generator; longer runs of zero draws", assumptions=ASSUME),
 "C13": dict(engines=[], least=0.3, technique="bounded model checking of the real decoder with Kani (CBMC), every character symbolic",
   explanation="Kani compiles the real from_hex, with the digits as symbolic bytes and a stand-in field that keeps the exact integer (modulo 2^320); CBMC decides that the value handed to the field is the big-endian value of the digits for every digit string, and that no malformed string is decoded. A counterexample is replayed natively on all six fields before it is reported.",
   bounds="all strings of 0, 2, 4, 6, 8, 16, 32, 64, 66 hexadecimal digits in either case; all strings of 1 to 7, 16, 32, 64, 65 (thorough: also 63) ASCII characters of which some is no digit or whose number is odd; 80 digits with eight arbitrary ones at the end (thorough: also at the start and in the middle, and strings that are no digits there); every two-character ASCII prefix with six digits.",
   outside="other lengths, non-ASCII text", assumptions=["Kani and CBMC are sound", "the hex crate's Vec::from_hex behaves like the loop that stands in for its iterator chain (the digit table and error cases are the crate's own)", "from_be_bytes_mod_order of the shipped fields reduces the big-endian integer (exercised natively only on counterexamples)"]),
 "C15": dict(engines=[("symx", "checked"), ("symx", "release"), ("trees", "checked")], technique="symbolic execution of the real code + Kani (CBMC) over all degrees and round numbers",
   explanation="Kani decides, for every usize degree and round number, that the constructors do not return. The symbolic engine runs the real permutations on inputs of the wrong length with arbitrary elements, the constructors on malformed shapes and the trees on empty lists, with and without debug assertions; each must panic on every path, and the well-formed call next to it must not.",
   bounds="Kani: every usize degree (Poseidon2, GMiMC, Neptune) and every odd number of full rounds (Poseidon2 below 2^32, Neptune) at one small shape. Symbolic engine: input lengths 0..2t+3, 3t, 4t, 31..33, 64, 65, 128 at all shipped t and degrees, all element values; degrees 0..96 and twelve large ones, odd round numbers up to 17, at every shipped t; MDS matrices of 1..t+4, 2t, 2t+1 rows; Neptune sizes 1..25; empty lists on fresh, used and cloned trees of all four kinds.",
   outside="lengths and shapes other than those listed; Poseidon's constructor under Kani (its matrix inversion exceeds memory)", assumptions=ASSUME + ["Kani and CBMC are sound"]),
 "C16": dict(explanation=ENGINE + "Sequences of calls on one object, clones, objects that share parameters and other objects, with independent symbolic inputs; every repeated input must give the same graph output, for all values, including equal and special ones (explored as branches).",
   bounds="call sequences of up to seven calls in several shapes for each of the four hashes and the Merkle tree; all input values; small round splits.",
   outside="longer histories; concurrent calls (there is no shared mutable state in safe Rust without a synchronised static, whose sequential effects are covered)", assumptions=ASSUME),
 "C17": dict(explanation=ENGINE + "The function applied to the first element in each partial round is an uninterpreted function per round, so the equality holds whatever the S-box is.",
   bounds="t in {2,3,4,5,8,12,16,20,24}, 1..5 partial rounds (thorough up to 22) after 0 or 4 full-round rows, 22 at t=3,8; all states and constants; concrete matrices above t=2, symbolic at t=2 with one and two rounds.",
   outside="symbolic matrices above t=2", assumptions=ASSUME),
 "C18": dict(explanation=ENGINE + "Sizes and round numbers of the shipped static objects, read back from the built library, against the formulas; then the permutation at that size and those round numbers, for all inputs and all constants, against the specification.",
   bounds="all shipped GMiMC and Neptune parameter sets; every input state and every value of the drawn constants.",
   outside="nothing within the statement", assumptions=ASSUME),
}
NA = {
 "C19": "Computational infeasibility is a statement about all algorithms, not about the values this code computes; no solver query over the code can express or decide it.",
 "C20": "Timing and memory-access patterns arise below the level that is encoded (compiled limb arithmetic, allocator, caches); the field operations of ark-ff themselves are variable-time, and the encoding abstracts them.",
}
