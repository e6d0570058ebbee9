"""Writes known_findings.json: repaired defects (which suppress nothing); there is no unrepaired finding."""
import json, os
R = [
 ("3479285","C03","register_node stored an empty host for addresses written without a scheme (192.168.0.5:5000), which no resolution could ever contact"),
 ("6fa9d6c","C02","resolve_conflicts trusted the length a peer claimed, so a valid chain that is not longer replaced the node's own"),
 ("45ff252","C03","one unreachable, stalled, failing or garbage peer aborted or blocked the whole conflict resolution"),
 ("45ff252","C05","a conflict resolution with a bad peer answered with a server error"),
 ("de5b465","C01","two mining requests at once put two blocks after the same predecessor: the node served an invalid chain"),
 ("de5b465","C02","a block mined while a resolution waited for the network could be lost to a chain that was no longer longer"),
 ("de5b465","C04","transactions submitted while a block was made were lost, or acknowledged for another block"),
 ("de5b465","C05","replies mixed two states: length and chain, mined block and chain, resolution and chain"),
 ("85dc065","C05","malformed requests failed half-way with a server error, some after changing the node"),
 ("808f1dc","C08","simulated transcripts carried the inverse of the mapping the verifier checks"),
 ("cdf0f48","C20","AffineSubspaceFRI.query reseeded the process-wide random source with 1"),
 ("cdf0f48","C11","after AffineSubspaceFRI.query, commitment secrets and colour permutations repeated"),
 ("7b251ac","C10","the 3-colouring verifier accepted a fourth colour"),
 ("11b75b5","C10","openings with fewer bit secrets than committed bits were accepted"),
 ("11b75b5","C12","openings with fewer bit secrets than committed bits verified"),
 ("46fee2e","C12","a bit commitment opened to either bit: minus the secret squares to the same value"),
 ("46fee2e","C10","a dishonest prover opened a committed colour to another one with negated secrets"),
 ("6e883f1","C14","an inner node, or another cut between sibling leaves, verified as a leaf"),
 ("90ffe70","C14","negative indices and indices beyond the list verified as other positions"),
 ("95b69da","C16","starks.stark could not be imported: the proximity proof it names was commented out"),
 ("95b69da","C17","starks.stark could not be imported: no proof was ever verified"),
 ("2254e5b","C16","proving a computation whose last state is zero failed"),
 ("4dda721","C16","a security factor other than the default made honest proofs fail"),
 ("539742c","C16","computations of width ten and more could not be proved"),
 ("802c28e","C17","the combination tested for low degree was not linked to the committed polynomials: false proofs were accepted"),
 ("a70d2ab","C16","computations with constant registers could not be proved"),
 ("c24753e","C18","memoised constructors ignored keyword arguments, and made two types when asked by two threads, or by position and by name"),
 ("b379dd9","C19","FloatingPoint subtraction flipped the sign of its right operand"),
 ("4f0370d","C21","is_primitive accepted the polynomial x"),
 ("fad9261","C07","a response that maps two vertices onto one was accepted: a cheating prover folds the graphs"),
 ("7a3ec9f","C10","the 3-colouring verifier accepted a negative colour, which a prover may open for several vertices"),
 ("e661dbf","C17","Merkle branches of any depth were accepted: one root could show two trees, and a forged proof passed"),
 ("c3bb3ae","C17","spot check positions hung on one Merkle root only: the other tree could be fitted to them"),
 ("7c8ba59","C17","sampled rows of a proximity proof hung on the column only: the values could be fitted to them"),
 ("f0ac8b7","C04","the block number of an acknowledgement was read from a foreign block: it named a block that never comes"),
 ("f0ac8b7","C05","a transaction after taking over a chain with odd indices was answered with a server error or another number"),
 ("de9fa82","C03","a deeply nested reply of one peer broke off the conflict resolution"),
 ("de9fa82","C05","deeply nested requests and replies were answered with a server error"),
 ("fb8a105","C04","an amount beyond the floating-point range was recorded as another one"),
 ("fb8a105","C05","replies held Infinity or NaN, which is no JSON"),
 ("435768d","C32","honest proofs were refused when the bound was no multiple of four, or with more than forty samples over two foldings"),
 ("cf6c0e0", "C17", "the combination whose degree is tested multiplied trace and boundary polynomials by a constant instead of a power of x, so committed registers of twice the degree of a trace passed, and with an extension factor of twice the degree a false output could be proved (the square of a register wraps around)"),
]
out = [{"id": f"fixed-{p}-{h}", "property": p, "status": "fixed", "commit": h, "record": f"fixed: property={p} {h} {w}"} for h, p, w in R]
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
