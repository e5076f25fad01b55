#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to diff)."""
import json, os
P = "include/dd/Package.hpp"
CT, CN, CC, UT = "include/dd/ComplexTable.hpp", "include/dd/ComplexNumbers.hpp", "include/dd/ComplexCache.hpp", "include/dd/UniqueTable.hpp"
R = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    R.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Canonical form: equal functions share one diagram of minimal size",
 "Within one package, two diagrams (state vectors, or operators) over the same qubits that denote the same function are the identical edge (same node, same weight), however they were built; diagrams of different functions are different edges. The reported size of a diagram is the minimum possible: per level, one node for each class of non-zero sub-vectors (sub-matrices) equal up to a scalar factor, plus the terminal.",
 ["inputs", "histories"], "every pair of construction histories that yield the same vector/operator, every function representable up to the tolerance",
 "The tests compare a handful of hand-picked pairs; canonicity is a statement about all pairs of histories and about every normalisation case (ties, zero children, phases).",
 [P, UT, CT], [("normalize(vEdge)", P+":134"), ("normalize(Edge<Node>)", P+":380"), ("makeDDNode", P+":993"), ("UniqueTable::lookup", UT), ("size", P+":2230")],
 [("unique table", "the set of stored nodes", UT)], ["edge equality", "size()", "getActiveNodeCount()"])

prop("C02", "Every stored node obeys the normal form and is stored once",
 "After any sequence of operations every node reachable from a live diagram satisfies: successors lie exactly one level below (or are the terminal), zero-weight successors are the terminal zero edge, vector node weights have squared magnitudes summing to one with the leading largest weight real and positive, operator node weights have their leading largest weight equal to one and none larger in magnitude, and no two stored vector nodes, and no two stored operator nodes, of a level have identical successors. The symmetric/identity marks of an operator node are set exactly when the node is symmetric/the identity.",
 ["histories", "inputs"], "every reachable state of the package, for every node it stores",
 "The tests only inspect a few root edges; the invariant ranges over all stored nodes after all histories, and a violation surfaces only in later unrelated operations.",
 [P, UT, "include/dd/Node.hpp"], [("normalize", P+":134"), ("checkSpecialMatrices", P+":814"), ("UniqueTable::searchTable", UT)],
 [("mNode.flags", "symmetric and identity marks", "include/dd/Node.hpp")], ["getTables()", "p->e", "isIdentity()", "isSymmetric()"])

prop("C03", "Single-target gate diagrams denote the controlled gate exactly",
 "For every 2x2 matrix, every target, every set of positive and negative controls (above and below the target), every qubit count up to the package limit and every start offset, the constructed gate diagram denotes the operator that applies the matrix to the target exactly on basis states satisfying all controls and is the identity elsewhere. The predefined gate matrices and rotation-gate functions equal their textbook definitions for all angles.",
 ["inputs"], "all matrices x targets x control sets x polarity x n (1..128) x start",
 "The tests construct a few gates on 1-3 qubits and mostly compare against other library routines; the cross product of control polarity, position and offset is not sampled.",
 [P, "include/dd/GateMatrixDefinitions.hpp", "include/dd/Control.hpp"], [("makeGateDD", P+":480"), ("makeIdent", P+":2175"), ("U3mat..RZmat", "include/dd/GateMatrixDefinitions.hpp")],
 observe=["getMatrix", "getValueByPath"])

prop("C04", "Two-qubit gates denote their matrix, plain and controlled",
 "For both orders of the two targets, all distances between them and every start offset, a two-qubit gate diagram denotes the given 4x4 matrix acting on (first target, second target) and the identity elsewhere; every named two-qubit gate (SWAP, iSWAP and inverse, DCX, ECR, Peres and inverse, RXX, RYY, RZZ, RZX, XX-YY, XX+YY) equals its textbook matrix for all angles. The controlled form of each equals that matrix exactly when all (positive or negative) controls hold and the identity otherwise.",
 ["inputs"], "all named gates x target orders x distances x control sets x angles x start",
 "The tests compare each controlled form for one control placement and few angles; target order, negative controls, offsets and angle corner cases are unsampled.",
 [P, "include/dd/GateMatrixDefinitions.hpp"], [("makeTwoQubitGateDD", P+":551"), ("make*DD", P+":629")], observe=["getMatrix", "getValueByPath"])

prop("C05", "Diagram arithmetic equals exact linear algebra",
 "Addition, matrix-vector and matrix-matrix multiplication, Kronecker product (with and without index shift) and extension by identities, transposition and conjugate transposition return diagrams denoting exactly the corresponding linear-algebra result (up to numerical tolerance), for all operands including zero, identity, symmetric, scaled and non-unitary ones. Operands are never modified.",
 ["inputs", "histories"], "all operand pairs of equal width, after every history of earlier operations",
 "The tests check a few products of standard gates; shortcut paths (identity, symmetric, equal operands, zero) combine with weights and caches in ways no fixed example covers.",
 [P], [("add2", P+":1331"), ("multiply2", P+":1583"), ("kronecker2", P+":1964"), ("transpose", P+":1437"), ("conjugateTranspose", P+":1466"), ("extend", P+":1956")], observe=["getMatrix", "getVector"])

prop("C06", "Scalar functionals are exact",
 "Inner product, fidelity, fidelity of measurement outcomes, expectation value of Hermitian observables, trace and partial trace equal the mathematical values for all operands; the inner product is conjugate-linear in the first and linear in the second argument. The identity test answers true exactly for (tolerance-close) multiples of the identity among unitary operators.",
 ["inputs", "histories"], "all states/operators, all subsets of traced-out qubits",
 "The tests evaluate a few overlaps and traces of identity/permutation-like operators; complex phases, partial subsets and repeated queries against the caches are not covered.",
 [P], [("innerProduct", P+":1773"), ("expectationValue", P+":1908"), ("trace", P+":2040"), ("isCloseToIdentity", P+":2032"), ("fidelityOfMeasurementOutcomes", P+":1800")], observe=["return values"])

prop("C07", "State and operator preparation and read-out agree",
 "Basis states (including +,-,left,right and start offsets), diagrams built from explicit vectors or matrices, identity diagrams for every qubit range and zero states denote exactly the requested function. Every read-out (full vector/matrix, single amplitude by path or index, amplitude export to stream and array in text and binary form, accumulation into an array, printing) reports the denoted values at the right index, and deleting a branch zeroes exactly the amplitudes with that qubit value.",
 ["inputs"], "all vectors/matrices up to the tolerance incl. zeros, sparse, phases; all indices",
 "The tests read back a few states; index conventions, zero branches and offsets are only sampled at 1-3 positions.",
 [P], [("makeBasisState", P+":249"), ("makeStateFromVector", P+":307"), ("makeDDFromMatrix", P+":342"), ("makeIdent", P+":2175"), ("getValueByPath", P+":2517"), ("getVector", P+":2639"), ("exportAmplitudes", P+":2807"), ("addAmplitudes", P+":2853"), ("deleteEdge", P+":1031")], observe=["getVector", "getMatrix", "getValueByPath", "exportAmplitudes"])

prop("C08", "Caches and history never change a result",
 "The result of every operation depends only on the functions its operands denote: repeating it, performing it after arbitrary other operations, after forced or automatic garbage collection, after clearing caches, after memory of dead nodes and numbers was reused, or with cache sizes forcing collisions gives the same result as in a fresh package. A result that mentions collected memory is never returned.",
 ["histories", "configurations"], "all interleavings of operations, cache hits/evictions, collections and memory reuse; all table sizes",
 "Stale cache entries need a specific history (compute, drop, collect, reuse the address, recompute); no unit test drives it for every cache.",
 [P, "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp"], [("garbageCollect", P+":928"), ("clearComputeTables", P+":1079"), ("ComputeTable", "include/dd/ComputeTable.hpp")], observe=["results of repeated operations"])

prop("C09", "Garbage collection never touches live diagrams",
 "Forced or automatic garbage collection leaves every diagram the user holds a reference to unchanged (same edge, same denoted function, still fully usable), and removes exactly the nodes and numbers that no live diagram reaches. It reports whether it collected something, and it never removes predefined numbers.",
 ["histories"], "all sequences of operations, reference acquisitions/releases and collections",
 "The tests collect in two or three fixed situations; safety is a statement about every state in which a collection can run.",
 [P, UT, CT], [("garbageCollect", P+":928"), ("UniqueTable::garbageCollect", UT), ("ComplexTable::garbageCollect", CT)], observe=["getTables()", "getTable()", "getVector/getMatrix of held diagrams"])

prop("C10", "Reference counts are exact, and saturate safely",
 "At all times the reference count of every stored node equals the number of references users hold on it plus the number of edges to it from referenced nodes, counts of numbers likewise, and the active-node counters equal the number of referenced nodes per level; releasing a reference restores the previous counts exactly, and releasing more than was acquired is reported as an error. A count that reaches its maximum sticks there and the object is never collected. The built-in consistency checks accept exactly the diagrams whose counts are right.",
 ["histories"], "all sequences of acquire/release on overlapping diagrams, including near saturation",
 "Tests check one or two counters after one acquire/release; exactness over shared sub-diagrams and saturation is never exercised.",
 [UT, CT, CN], [("UniqueTable::incRef/decRef", UT), ("ComplexTable::incRef/decRef", CT)], [("Node.ref", "reference count", "include/dd/Node.hpp"), ("Entry.refCount", "reference count", CT)], ["p->ref", "refCount", "getActiveNodeCount()"])

prop("C11", "Number lookup: within tolerance, found if present, unique",
 "Looking up a real number returns a stored number within the tolerance of it if there is one (the fixed numbers 0, 1 and sqrt(1/2) first) and otherwise stores exactly the requested value; stored numbers are pairwise more than the tolerance apart, independently of bucket borders, insertion order, collection or reuse. Signs are handled symmetrically: looking up -x gives the negation of looking up x, and there is only one zero.",
 ["histories", "inputs"], "all insertion orders of values around bucket borders and tolerance boundaries, interleaved with collections and clears",
 "The tests probe a few border values in a fixed order; errors need two cooperating insertions next to a bucket border or a collection in between.",
 [CT, CN], [("ComplexTable::lookup", CT), ("findOrInsert/insert", CT), ("garbageCollect", CT), ("ComplexNumbers::lookup", CN)], observe=["returned entry and value", "getTable()", "getCount()"])

prop("C12", "Working numbers are never shared and never leak",
 "A working number handed out is distinct from every other one in use until it is returned, a temporary never overwrites a handed-out number, and every public operation returns all working numbers it took (the count in use is the same before and after). This holds across chunk growth, reuse and clearing; numbers that were returned are used again before new memory is allocated.",
 ["histories"], "all acquire/return/temporary sequences; every public operation on every operand shape",
 "A leak or alias shows only as a wrong value much later; tests check the balance for a few operations only.",
 [CC, CN, P], [("getCachedComplex/getTemporaryComplex/returnToCache", CC), ("cacheCount asserts", P)], observe=["cacheCount()", "returned pointers"])

prop("C13", "Serialization round-trips",
 "Writing a vector or operator diagram in text or binary form and reading it back gives the identical edge in the same package and an equal function in any other package, for every diagram including those with zero branches, complex, tiny or large weights, and scalar (zero-qubit) diagrams. The written file itself denotes the same function; a file with a wrong version or malformed line, or a missing file, is rejected with an error.",
 ["inputs"], "all diagrams, both formats, both kinds",
 "The tests round-trip the Bell state, a Bell circuit and a few weights.",
 ["include/dd/Export.hpp", P, "include/dd/ComplexValue.hpp"], [("serialize", "include/dd/Export.hpp"), ("deserialize", P+":2969"), ("ComplexValue::fromString/readBinary", "include/dd/ComplexValue.hpp")], observe=["edge equality", "getVector/getMatrix", "file content"])

prop("C14", "Transfer between packages preserves the diagram",
 "Transferring any vector or operator diagram to another package gives a diagram there denoting the same function, identical to the one that package would build itself, owning no memory of the source package, and leaving the source unchanged.",
 ["inputs", "histories"], "all diagrams (shared sub-diagrams, zero branches, scalars), any prior content of the target package",
 "No test calls it.",
 [P], [("transfer", P+":2881")], observe=["edge equality in the target package", "getVector/getMatrix"])

prop("C15", "Measurement follows the Born rule and collapses correctly",
 "For every state the reported measurement probabilities of each qubit equal the squared norms of the two projections; a measurement only returns outcomes of non-zero probability, with the Born frequencies; the collapsed state is the normalised projection onto the outcome (for a full measurement, the basis state of the returned string, most significant qubit first), and reference counts are transferred from the old to the new state.",
 ["inputs", "histories"], "all states, qubits, random streams",
 "The tests measure GHZ-like states with fixed seeds.",
 [P], [("measureAll", P+":1103"), ("determineMeasurementProbabilities", P+":1179"), ("measureOneCollapsing", P+":1254")], observe=["return values", "getVector of the collapsed state"])

prop("C16", "Density-matrix simulation equals exact conjugation",
 "Starting from |0..0><0..0|, applying any sequence of operators to a density-matrix diagram yields the density matrix K rho K^dagger of the composed operator, for both settings of the half-matrix optimisation; the probability vector read from it (keys list qubit 0 first) equals its diagonal (entries above the threshold). Sums of density matrices equal the matrix sum.",
 ["inputs", "histories"], "all gate sequences, both modes, all sizes",
 "The tests simulate two fixed circuits.",
 [P, "include/dd/Edge.hpp", "include/dd/Node.hpp"], [("applyOperationToDensity", P+":1520"), ("multiply2 (density)", P+":1690"), ("dNode flags", "include/dd/Node.hpp"), ("getProbVectorFromDensityMatrix", P+":2590")], observe=["getDensityMatrix", "getProbVectorFromDensityMatrix"])

prop("C17", "Ancilla and garbage reduction project exactly",
 "Reducing ancillary qubits of an operator zeroes exactly the columns (rows in the non-regular variant) in which an ancillary qubit is one and changes nothing else, for every operator. Reducing garbage qubits merges the rows (columns in the non-regular variant; amplitudes for states) that differ only in garbage qubits into the one where those qubits are zero, for unitary operators and normalized states in which at most one of the entries merged into one is non-zero (as for reversible circuits; any phases). References held on the argument are handed over to the result.",
 ["inputs"], "all operators / all unitary operators and states in the domain, all subsets of qubits, both variants",
 "The tests reduce identity- and CX-like diagrams whose weights are all one, so weight handling is never exercised.",
 [P], [("reduceAncillaeRecursion", P+":2322"), ("reduceGarbageRecursion", P+":2368")], observe=["getMatrix", "getVector", "reference counts"])

prop("C18", "Reset and growth give a package equivalent to a fresh one",
 "After a reset every subsequent operation sequence gives the same results as in a new package: nothing computed before is visible, counters start from zero, and stale memory is never used. Enlarging the package keeps all existing diagrams valid and makes the new qubits usable; qubit counts beyond the limit are rejected.",
 ["histories"], "all histories before and after a reset or enlargement",
 "One test resets after a trivial history; stale state shows only with specific before/after combinations.",
 [P, UT, CT, CC], [("reset", P+":118"), ("resize", P+":103"), ("clear*", P+":986")], observe=["results after reset", "counts"])

prop("C19", "Result tables return only what was stored for that key",
 "Each result table (binary, unary, Toffoli, stochastic-noise, density-noise) answers a lookup either with nothing or with the value most recently stored under exactly that key since the last clear, whatever collisions occur; clearing forgets everything, and enlarging keeps entries valid.",
 ["histories"], "all sequences of store/lookup/clear over colliding keys, for all table kinds and sizes",
 "The tests touch one or two entries; a wrong hit needs a collision between keys differing in one component.",
 ["include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp", "include/dd/ToffoliTable.hpp", "include/dd/StochasticNoiseOperationTable.hpp", "include/dd/DensityNoiseTable.hpp"],
 [("ComputeTable::lookup/insert", "include/dd/ComputeTable.hpp"), ("ToffoliTable", "include/dd/ToffoliTable.hpp")], observe=["lookup results"])

prop("C20", "Invalid requests are rejected and leave the package intact",
 "Requests outside the supported domain (a state, density operator, gate or package with too many qubits, too few qubit states, non-square or non-power-of-two data, mismatched observable, zero state or non-normalised state measured, unbalanced release of a diagram, wrong file version, a line of a file not in the format, a file that cannot be opened) raise the documented kind of error, and all diagrams held, reference counts and working numbers are as before the request; valid requests on the boundary succeed with the right result.",
 ["inputs", "histories"], "all invalid requests in all states",
 "The tests call each throwing path once on a fresh package and never check that the package is still usable.",
 [P], [("throw sites", P)], observe=["exception types", "state after the exception"])

prop("C21", "Arithmetic on complex numbers handles signs and shared operands",
 "Addition, subtraction, multiplication, division, negation, conjugation, magnitude and phase of package numbers (including numbers stored with a sign mark, and when the result overwrites an operand) equal complex arithmetic; comparisons and predicates agree with the numeric values; the printed form of a number reads back to the same value up to the printed precision, and fractions with denominators up to 1024 and such multiples of sqrt(1/2) and pi are recognised and printed exactly.",
 ["inputs"], "all pairs of numbers incl. negative, zero, one; all aliasing patterns",
 "The tests try one or two numbers per routine, mostly positive.",
 [CN, "include/dd/Complex.hpp", "include/dd/ComplexValue.hpp"], [("ComplexNumbers::mul/div/..", CN), ("Entry::val", CT), ("ComplexValue::printFormatted", "include/dd/ComplexValue.hpp")], observe=["values", "strings"])

prop("C22", "Exports show exactly the diagram",
 "Every graph export (all style combinations, vectors and operators) contains exactly one node per distinct diagram node, exactly one edge per non-zero successor with the right endpoints and branch, and the root edge, and no others, so that the drawn graph denotes the diagram's function; printed labels, tooltips, widths, colours and dashes agree with the edge weights. The edge-weight listing enumerates the root weight and the weight of every non-zero successor of every node, each once.",
 ["inputs", "configurations"], "all diagrams, all style options",
 "The tests only check that files are produced.",
 ["include/dd/Export.hpp"], [("toDot", "include/dd/Export.hpp"), ("exportEdgeWeights", "include/dd/Export.hpp")], observe=["generated text"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for r in R: f.write(json.dumps(r) + "\n")
