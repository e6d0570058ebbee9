"""Writes /verif/properties.jsonl (kept as a script so that wording and anchors stay reviewable)."""
import json
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files,
      state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
      mechanism=[dict(name=n, where=w) for n, w in mech],
      observe_at=list(observe), hook_needed=hook)))

BC = "misc/blockchain.py"; RB = "misc/run_blockchain.py"
add("C01", "A node always holds and serves a valid proof-of-work chain",
 "At every instant, under any interleaving of concurrent mining, transaction, registration, chain and conflict-resolution requests on any number of nodes, and whatever peers send, delay or withhold, the chain a node holds and serves is valid: every block names the hash of the block before it and its proof meets the proof-of-work rule for that predecessor. Blocks a node mines are numbered by their position in its chain. A block that is on the chain is never altered, removed or reordered, except that conflict resolution may replace the chain as a whole.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every interleaving of request handlers (line- and instruction-level preemption), every peer behaviour and network fault, every request history",
 "The only blockchain test constructs a Blockchain object, and it cannot even be collected; nothing mines, and nothing runs two requests at once.",
 [BC, RB],
 [("new_block / proof_of_work / valid_chain", BC), ("mine handler", RB)],
 [("chain", "the node's list of blocks", BC), ("current_transactions", "pending pool, handed to the next block", BC)],
 ["GET /chain", "GET /mine reply", "the node's chain after each event"])
add("C02", "Conflict resolution adopts only a strictly longer valid chain",
 "Resolving conflicts replaces a node's chain only by a chain that a peer really served during that resolution, that is valid block by block, and that has strictly more blocks than the chain it replaces; among the replies received it takes a longest such chain. In every other case the chain is left exactly as it was, and the reply says truthfully whether it was replaced. A node's chain never gets shorter, whatever peers claim about its length and whatever requests run at the same time.",
 ["schedules", "fault_sequences", "inputs", "histories"],
 "every set of peer replies (honest, stale, truncated, altered, over-claimed, garbage), every order of arrival, every request that runs while the resolution waits for the network",
 "No test calls the consensus algorithm, let alone with a lying or slow peer or with a block mined while it waits.",
 [BC, RB], [("resolve_conflicts", BC), ("valid_chain / valid_proof", BC), ("consensus handler", RB)],
 [("nodes", "registered peers", BC)], ["GET /nodes/resolve reply", "the node's chain before and after"])
add("C03", "Nodes converge on the longest chain once faults stop",
 "Once faults stop, a bounded number of conflict resolutions per node brings every node of a connected network to a chain as long as the longest valid chain any of them holds, including nodes that crashed and restarted with nothing but the genesis block. A peer that is unreachable, stalled, failing or sends garbage delays a resolution only by a bounded time and never stops it from adopting the chains of the other peers. Every request is answered, and every accepted way of writing a peer's address makes that peer be contacted.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "every topology, every crash/partition/stall/garbage history followed by a fault-free period, every registration order",
 "Liveness needs several nodes, a network and failures; the tests have one node and no network.",
 [BC, RB], [("resolve_conflicts", BC), ("register_node", BC), ("register_nodes / consensus handlers", RB)],
 [("nodes", "registered peers", BC)], ["GET /nodes/resolve", "GET /chain"])
add("C04", "Every accepted transaction is mined exactly once, unchanged",
 "Every transaction a node acknowledges goes, unchanged and in the order of acknowledgement, into exactly one block that the node mines - the next one - however requests interleave, and the acknowledgement names that block's number unless the chain is replaced in between. Each mined block carries exactly one reward of amount 1 from sender 0 to the mining node. Adopting another chain neither loses nor duplicates transactions still waiting to be mined.",
 ["schedules", "histories", "inputs"],
 "every interleaving of submissions, mining and resolution on a node, every transaction content",
 "No test submits a transaction; the interesting executions are concurrent ones.",
 [BC, RB], [("new_transaction / new_block", BC), ("mine and new_transaction handlers", RB)],
 [("current_transactions", "pending pool", BC)], ["POST /transactions/new", "GET /mine", "blocks of GET /chain"])
add("C05", "Every node reply reports one consistent state",
 "Each reply describes a single state the node was really in between request and reply: the chain reply's length equals the number of blocks it carries, the mining reply equals the block that was put on the chain, and the resolution reply carries the chain the node then held. A request that is malformed is answered with a client error and changes nothing. Replies never fail because other requests run at the same time.",
 ["schedules", "histories", "inputs"],
 "every interleaving of handlers on one node, every well- or ill-formed request",
 "The HTTP handlers have no test at all.",
 [RB, BC], [("full_chain, mine, new_transaction, register_nodes, consensus handlers", RB)],
 [], ["all HTTP replies"])

ZK = "misc/zero_knowledge.py"; Z3 = "misc/zkp_3_coloring.py"; CM = "misc/commitment.py"; BB = "misc/blum_blum_shub.py"; PR = "misc/primality.py"
add("C06", "Honest graph-isomorphism proofs are always accepted",
 "For every pair of graphs and every correct isomorphism between them, every session between an honest prover and an honest verifier ends in acceptance, whatever random choices both make, however many sessions share one prover or verifier object and interleave, and however messages are delayed, duplicated, reordered or lost and retransmitted. Proving leaves the graphs and the secret isomorphism unchanged.",
 ["schedules", "fault_sequences", "inputs"],
 "every graph and isomorphism, every random choice, every interleaving of sessions and message faults",
 "The tests use one 6-vertex graph and one session at a time, and cannot be collected.",
 [ZK], [("ZKProver.send_isomorphic_copy / prove_isomorphic_to", ZK), ("ZKVerifier.choose_graph / accepts", ZK)],
 [], ["accepts()", "run_protocol()", "convince_beyond_doubt()"])
add("C07", "The isomorphism verifier accepts only genuine isomorphisms",
 "The verifier accepts a response if and only if the carried mapping is one-to-one on the vertices of the committed graph and takes it edge for edge onto the graph it challenged for, so corrupted, stale, cross-session and forged responses are refused. Its challenge is drawn uniformly between the two graphs, so a prover without an isomorphism survives a round with probability at most one half, and convincing beyond doubt at a given tolerance succeeds for such a prover with at most that probability.",
 ["schedules", "fault_sequences", "inputs"],
 "every committed graph, challenge and response, including responses altered or misdelivered in transit, every cheating prover, whatever graph it commits to",
 "Soundness is a statement about all responses and all provers; the tests try one wrong graph in 10 random trials.",
 [ZK], [("ZKVerifier.accepts / choose_graph", ZK), ("convince_beyond_doubt", ZK)], [], ["accepts()", "convince_beyond_doubt()"])
add("C08", "Simulated proof transcripts are indistinguishable from real ones",
 "A transcript produced without the secret has the same form and the same distribution as one of the real protocol: the verifier accepts it, its challenge is uniform over the two graphs, and its committed graph is a uniformly random relabelling independent of the challenge. In real sessions too, the committed graph is a fresh uniformly random relabelling each time, so what a session reveals does not depend on the secret.",
 ["inputs", "schedules"],
 "every pair of isomorphic graphs, every random stream, interleaved real and simulated sessions",
 "The test checks only that the simulated transcript has three elements.",
 [ZK], [("simulate_protocol", ZK), ("messages_from_protocol", ZK), ("random_permutation", ZK)], [], ["transcripts"])
add("C09", "Honest 3-colouring proofs are always accepted",
 "For every properly 3-coloured graph, every round between an honest prover and an honest verifier ends in acceptance, for all random choices, challenged edges, message delays, duplicates, losses with retransmission, and re-commitments between rounds. The prover opens only the two endpoints of an edge of the graph and refuses any other pair.",
 ["schedules", "fault_sequences", "inputs"],
 "every coloured graph, every edge orientation and challenge, every message-fault sequence",
 "The test's assertion-free run covers one graph and one edge, and cannot be collected.",
 [Z3, CM], [("ZK3ColProver.commit_to_coloring / reveal_colors", Z3), ("ZK3ColVerifier.choose_edge / accepts", Z3)],
 [("vertexToScheme", "commitments of the current round", Z3)], ["accepts()", "reveal_colors()"])
add("C10", "The 3-colouring verifier rejects every false or altered opening",
 "The verifier accepts a round only if the two openings match the commitments it received for the endpoints of the edge it chose and open them to two different colours among the three. Openings that are truncated, swapped, taken from another round or vertex, or corrupted into anything that does not open the committed colours, and commitments to equal or out-of-range colours, are never accepted on the challenged edge. Every edge is challenged with equal probability.",
 ["schedules", "fault_sequences", "inputs"],
 "every commitment and opening a faulty network or a cheating prover can deliver",
 "No test gives the verifier anything but an honest opening.",
 [Z3, CM], [("ZK3ColVerifier.accepts", Z3), ("BBSIntCommitmentVerifier.verify / decode", CM)], [], ["accepts()"])
add("C11", "3-colouring rounds never reuse or leak secrets",
 "Each round commits with fresh secrets: no secret is used for two vertices, two bits or two rounds, and the colours are permuted by a freshly and uniformly chosen permutation of the three colours, so the opened pair is uniform over ordered pairs of distinct colours whatever the secret colouring is. Before an opening, commitments are all the prover releases, and opening an edge releases only its endpoints' secrets.",
 ["schedules", "histories", "inputs"],
 "every random stream and history of rounds, including interleaving with other library work in the same process",
 "Freshness and uniformity are properties of many rounds; the tests run one.",
 [Z3, CM], [("commit_to_coloring", Z3), ("generateSecret", CM)], [("secret", "per-bit random quadratic residue", CM)], ["commitments and openings"])
add("C12", "Commitments open to the committed value and nothing else",
 "Every bit and every integer of the declared length, once committed, is recovered from the commitment and its opening, and that opening verifies. An opening that was altered, shortened, reordered or belongs to another commitment never verifies as an opening to a different value, and two commitments made with separate schemes use independent secrets.",
 ["fault_sequences", "inputs", "histories"],
 "every value and width, every random stream, every transmission fault on commitment or opening",
 "One 1-bit commitment is constructed in the tests and never checked.",
 [CM, BB], [("BBSBitCommitmentScheme.commit / verifier decode, verify", CM), ("blum_blum_shub, parity", BB)], [], ["verify()", "decode()"])
add("C13", "Generated commitment moduli are products of two Blum primes",
 "Whatever candidates the random source offers, key generation returns a modulus that is the product of two primes congruent to 3 modulo 4 of at most the requested length (but for the negligible probability that a hundred random witnesses miss a composite), and the generator built on it squares modulo that modulus. The primality test never rejects a prime, whatever the random stream, and rejects every composite except with negligible probability.",
 ["inputs", "fault_sequences"],
 "every random stream, including biased and repetitive ones, every requested size, every candidate",
 "The tests print two outputs of one random modulus.",
 [PR, BB], [("probablyPrime / isWitness / decompose", PR), ("find_good_prime / make_modulus", BB)], [], ["make_modulus()", "probablyPrime()"])

MT = "starks/merkle_tree.py"; CP = "starks/compression.py"; ST = "starks/stark.py"
add("C14", "Merkle proofs authenticate exactly the committed value",
 "For every committed list of a supported length (a power of two, at least 4) and every index of it, the proof built from intact storage verifies against the root and yields that element. A proof that was corrupted, truncated, extended, reordered, built from damaged or torn storage, from an older version of the list, or for another index never verifies to a value other than the one committed under that root at that index.",
 ["fault_sequences", "inputs", "schedules"],
 "every list of a supported length and every index; every corruption of stored nodes or of proofs in transit, every mix of versions",
 "The tests check one index of two trees and never alter anything.",
 [MT], [("merkelize / mk_branch / verify_branch", MT), ("permute4 / get_index_in_permuted", MT), ("merkelize_polynomial_evaluations / unpack_merkle_leaf", MT)],
 [("nodes", "stored tree", MT)], ["verify_branch()"])
add("C15", "Proof compression is lossless and fails cleanly on damage",
 "Whatever compression returns for a proof decompresses to exactly that proof, for every size and pattern of repetition; a proof it cannot represent is refused, never silently altered. Decompressing a damaged, truncated, reordered or mixed stream always terminates, and never produces authenticated data that differs from what was compressed.",
 ["inputs", "fault_sequences"],
 "every branch set and low-degree proof, every corruption of the compressed stream",
 "test_compression cannot be collected, and would compress one four-element proof.",
 [CP, MT], [("compress_fri / decompress_fri", CP), ("compress_branches / decompress_branches", CP)], [], ["decompress output", "Merkle verification of it"])
add("C16", "Honest STARK proofs are always accepted",
 "For every supported computation over a prime field whose roots of unity the number 7 generates - any input, number of steps, width, transition polynomials of degree between one and the extension factor, extension and security factor - the prover's proof for the true execution trace is produced and accepted by a verifier that receives it intact, however sessions interleave and messages are lost, duplicated or delayed and resent, with or without compression. Proving and verifying change neither the witness nor the computation.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "every computation and parameter choice within the documented limits, every message history that ends in delivery",
 "starks.stark cannot be imported at this commit and every test in test_stark is commented out.",
 [ST, MT, "starks/fft.py", "starks/utils.py", "starks/poly_utils.py"], [("STARK.mk_proof / verify_proof", ST), ("construct_* polynomials", ST), ("compute_merkle_spot_checks", ST)], [], ["mk_proof()", "verify_proof()"])
add("C17", "A STARK verifier rejects every altered or false proof",
 "With an extension factor of at least twice the degree, and no less than four, a verifier that knows which computation it asks about accepts a proof only for the input and output of a true trace of that computation. Any proof altered in a part the verifier uses, truncated or stitched together from different sessions, delivered for a different input, output or transition rule, or built from a trace that violates a transition, an input or the claimed output, or from commitments not linked to the low-degree-tested combination, is rejected.",
 ["inputs", "fault_sequences", "schedules"],
 "every corruption of every part of a proof, every cross-session mix, and every cheating prover in the stated strategy families",
 "No test rejects anything: no test of the verifier runs at all.",
 [ST, MT, "starks/utils.py"], [("verify_proof / verify_proof_at_position", ST), ("get_pseudorandom_indices", "starks/utils.py"), ("verify_branch / unpack_merkle_leaf", MT)], [], ["verify_proof()"])

NT = "starks/numbertype.py"
add("C18", "Asking for a field or ring always yields that one field or ring",
 "Constructing a field, polynomial ring or number type returns the structure for exactly the parameters given, and the same one each time those parameters are given, regardless of positional or keyword form, of what was constructed before, of how many threads ask at once, and of earlier attempts that failed or were interrupted. Values obtained from two requests for the same parameters are therefore always interoperable.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every history and interleaving of constructor calls with any parameters and call forms, interruptions at any point",
 "The tests call each constructor from one thread with few parameters, and never compare two calls.",
 [NT, "starks/finitefield.py", "starks/modp.py", "starks/polynomial.py", "starks/multivariate_polynomial.py", "starks/rationals_modp.py", "starks/floatingpoint.py"],
 [("memoize", NT)], [("cache", "constructed types by parameters", NT)], ["constructor results", "arithmetic across them"])
add("C19", "Library calls neither interfere nor modify their operands",
 "Any set of library computations - field, rational and floating-point arithmetic, polynomials, Fourier transforms, interpolation, multivariate evaluation, Merkle and compression functions - run in any order, any number of times, from any number of threads over shared values, each returns what it returns when run alone in a fresh process. No computation changes the values given to it, even if another computation is interrupted part-way.",
 ["schedules", "histories", "fault_sequences"],
 "every history and every line-level interleaving of computations over shared operands, interruption of some of them at any point",
 "Each test runs one operation once on freshly built values in one thread.",
 ["starks/modp.py", "starks/rationals_modp.py", "starks/finitefield.py", "starks/floatingpoint.py", "starks/polynomial.py", "starks/multivariate_polynomial.py", "starks/fft.py", "starks/poly_utils.py", MT, CP, "starks/utils.py", NT],
 [("value semantics of number types", NT), ("arithmetic operators", "starks/floatingpoint.py"), ("transforms and interpolation", "starks/fft.py")], [], ["results and operands"])
add("C20", "No library call disturbs the program's random source",
 "Library calls that are not asked to draw randomness - verification, low-degree proximity commit and query, hashing, Merkle and arithmetic calls - leave the process-wide random source exactly as they found it, and no library call ever rewinds or reseeds it. Secrets and challenges drawn before, between and after such calls therefore never repeat or become predictable, in any interleaving.",
 ["schedules", "histories"],
 "every interleaving of deterministic library calls with calls that draw secrets",
 "Each test runs one component; the interference only shows when one process does both.",
 ["starks/fri.py", "starks/utils.py", "starks/poly_utils.py", ZK, Z3, CM, BB],
 [("AffineSubspaceFRI.query", "starks/fri.py"), ("get_pseudorandom_indices", "starks/utils.py")], [("random", "process-wide generator", "standard library")], ["state of the random source", "secrets drawn"])
add("C21", "Random field construction is correct for every random stream",
 "For every prime, degree and random stream, the polynomials generated as irreducible or primitive are monic, of the requested degree, and really irreducible or primitive, and a finite field built without an explicit modulus is a field with p^m elements in which the class of x generates all non-zero elements. Generation ends as soon as the stream offers a suitable candidate.",
 ["inputs", "fault_sequences"],
 "every random stream (uniform, biased, repetitive, adversarially starting), every small prime and degree",
 "The tests draw one polynomial of degree 4 over Z/2 and check it with the code that generated it.",
 ["starks/poly_utils.py", "starks/finitefield.py"], [("generate_irreducible_polynomial / generate_primitive_polynomial / is_irreducible / is_primitive", "starks/poly_utils.py"), ("FiniteField default modulus", "starks/finitefield.py")], [], ["generated polynomials", "FiniteField(p, m)"])

# --- pure functions of their input: listed, not claimed (see MANIFEST.json not_applicable)
add("C22", "Field and rational arithmetic satisfies the field laws",
 "In Z/p, Q/p and GF(p^m), addition, subtraction, multiplication, powers, inverses and division agree with the mathematical operations for every pair of elements, conversions from integers and bytes give canonical elements, and equality means mathematical equality.",
 ["inputs"], "every field and every pair of elements", "The tests check a handful of sums and products in a few small fields.",
 ["starks/modp.py", "starks/rationals_modp.py", "starks/finitefield.py", "starks/euclidean.py"], [("operators", "starks/modp.py"), ("extended_euclidean_algorithm", "starks/euclidean.py")])
add("C23", "Polynomial arithmetic is exact",
 "For all univariate polynomials over a field, sums, products, evaluation and division with remainder are exact: dividend = quotient * divisor + remainder with the remainder of smaller degree than the divisor.",
 ["inputs"], "every pair of polynomials over every supported ring", "The tests use a few polynomials of degree below five.",
 ["starks/polynomial.py"], [("__mul__, __divmod__, __call__", "starks/polynomial.py")])
add("C24", "Fourier transforms evaluate and interpolate exactly",
 "The transform of a polynomial equals its values at the successive powers of the root of unity, the inverse transform recovers the polynomial, transform-based multiplication equals polynomial multiplication, and the additive transforms evaluate and interpolate on the spanned affine space.",
 ["inputs"], "every polynomial, size and field", "The tests use two sizes.",
 ["starks/fft.py"], [("fft_1d, _fft, adfft, adfft_inverse", "starks/fft.py")])
add("C25", "Interpolation returns the unique polynomial through the points",
 "Every interpolation routine returns the unique polynomial of minimal degree bound through the given points, batch inversion inverts every non-zero entry, and root polynomials vanish exactly on their roots.",
 ["inputs"], "every set of distinct points", "The tests use one or two sets of points each.",
 ["starks/poly_utils.py"], [("lagrange_interp*, multi_interp_4, multi_inv, zpoly", "starks/poly_utils.py")])
add("C26", "Multivariate polynomials behave as polynomial functions",
 "Sums, products, powers, composition, projection and division of multivariate polynomials agree with the corresponding operations on polynomial functions, and a function over a finite field converts to the polynomial equal to it everywhere.",
 ["inputs"], "every polynomial and every point", "The tests use two-variable polynomials over small fields.",
 ["starks/multivariate_polynomial.py", "starks/poly_utils.py"], [("MultivariatePolynomial", "starks/multivariate_polynomial.py")])
add("C27", "Floating-point values over binary fields follow their definition",
 "Addition, subtraction, multiplication, division, power and conversion of floating-point 4-tuples over a binary field follow their definition, zero is the identity of addition, and comparison distinguishes unequal values.",
 ["inputs"], "every pair of floating-point values", "The tests check about twenty fixed cases, with a comparison that ignores most fields.",
 ["starks/floatingpoint.py", "starks/finitefield.py"], [("FloatingPoint operators", "starks/floatingpoint.py")])
add("C28", "Algebraic representations encode exactly the computation",
 "The execution trace follows the transition polynomials from the input, the constraint polynomials vanish on consecutive trace states and on no others, the boundary constraints fix the input, and the placement-and-routing reduction preserves this.",
 ["inputs"], "every computation", "The tests run a few fixed computations; both reduction tests fail at this commit.",
 ["starks/air.py", "starks/apr.py", "starks/ali.py"], [("AIR", "starks/air.py"), ("APR", "starks/apr.py")])
add("C29", "Affine spaces and their vanishing polynomials match",
 "An affine space enumerates exactly its elements, once each, its size is their number, and its vanishing polynomial is zero on exactly these.",
 ["inputs"], "every basis and shift over every field", "The tests enumerate two spaces.",
 ["starks/reedsolomon.py", "starks/poly_utils.py"], [("AffineSpace", "starks/reedsolomon.py"), ("construct_affine_vanishing_polynomial*", "starks/poly_utils.py")])
add("C30", "Low-degree proximity proofs accept exactly low-degree functions",
 "The proximity protocol over affine subspaces accepts every function of degree below the rate bound and rejects, with high probability, every function far from all of these.",
 ["inputs"], "every function on the space, every rate", "The single test uses one linear function on a four-element space.",
 ["starks/fri.py"], [("AffineSubspaceFRI.commit / query", "starks/fri.py")])
add("C31", "Pseudorandom index sampling respects its range and exclusions",
 "Index sampling is a deterministic function of the entropy, returns the requested number of indices in range, none of them a multiple of the excluded factor, and extending the count keeps the earlier indices.",
 ["inputs"], "every entropy, range, count and exclusion", "No running test calls it.",
 ["starks/utils.py"], [("get_pseudorandom_indices", "starks/utils.py")])
add("C32", "Low-degree proofs over subgroups convince of low degree only",
 "For every smooth multiplicative subgroup of at least four points, every degree bound, exclusion factor and number of samples, the proximity proof that is made for the values of a polynomial below the bound is accepted by every verifier that receives it intact and knows the Merkle root of these values, however sessions interleave and messages are lost, duplicated or delayed. A proof that was altered in a part the verifier uses, cut, stitched from several sessions, or delivered for another root or domain, is refused; so is, on domains of at least four times the bound and with forty samples or more, every proof for values far from all polynomials below the bound, whatever folding, trees or final layer a cheating prover sends. Proving and verifying change neither the polynomial nor the proof.",
 ["inputs", "schedules", "fault_sequences"],
 "every polynomial, domain, bound, exclusion and number of samples, every message history, every alteration and every cheating prover of the stated strategy families",
 "The tests of this protocol are commented out.",
 ["starks/fri.py", MT, "starks/utils.py", "starks/poly_utils.py", "starks/fft.py"],
 [("SmoothSubgroupFRI.generate_proximity_proof / verify_proximity_proof", "starks/fri.py"), ("multi_interp_4 / lagrange_interp", "starks/poly_utils.py"), ("verify_branch", MT)], [], ["generate_proximity_proof()", "verify_proximity_proof()"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
  for p in P: f.write(json.dumps(p) + "\n")
