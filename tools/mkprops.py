#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording and anchors are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reads return the last liability written; absent ids stay absent",
  "After any sequence of updates, looking up an id returns exactly the liability most recently set for that id, and an id that was never set is reported absent. Setting one id never changes, creates or removes any other id. A negative liability is refused and leaves everything as it was.",
  ["histories", "inputs"], "every finite sequence of set/lookup operations over every mix of ids (sharing any path prefix) and amounts in [0,2^63)",
  "Tests do at most four inserts and never set an id twice; they sample one history, not all orders, overwrites and shared prefixes.",
  ["pol/pol.go", "verkle/tree.go", "sparse/tree.go"],
  [("descent along the id path", "sparse/tree.go Tree.Put/Get"), ("negative check", "pol/pol.go LiabilitySet.Set")],
  [("Root/Descendants", "in-memory path tree holding liabilities at its leaves", "sparse/tree.go Vertex")],
  ["pol.LiabilitySet.Set/Get/ProveLiability", "verkle.Tree.Put/Get", "sparse.Tree.Put/Get"])
p("C02", "Every stored vertex matches what lies below it after any history",
  "Whenever no update is in progress, each stored vertex holds exactly the liabilities (or child totals) below it, their exact sum, and the digests of its current children. Its published commitments open to precisely those numbers, that sum and its blinding factor, and to precisely those digests. Hence the root total equals the sum of all liabilities.",
  ["histories", "inputs", "configurations"], "every sequence of inserts and overwrites (new vertex, new slot in an existing vertex, increase, decrease, same value, zero), every slot position, fan-out and depth",
  "No test inspects stored vertices, none overwrites a liability or puts two liabilities under one lowest vertex; existing-vertex code paths run but are never checked.",
  ["verkle/tree.go", "pp/pointproofs.go", "sparse/tree.go"],
  [("bottom-up recomputation of the path", "sparse/tree.go Tree.Put"), ("vertex create/update", "verkle/tree.go updateInnerLayer, updateLayerAboveLeaves"), ("sum update", "verkle/tree.go updateSum")],
  [("stored vertices", "one record per path prefix: values, sum, digests, blinding factor, V, W", "the key/value DB handed to the tree")],
  ["every DB Put during an update, decoded", "the whole DB after each update"])
p("C03", "The published root always reflects the latest update",
  "Asking for the root after any sequence of updates, lookups, proofs and earlier root queries returns the commitments of the tree's current content. An update that changes an amount changes it and a read never does. An empty set has no root.",
  ["histories"], "every interleaving of updates with root queries, proofs and total queries",
  "Every test queries the root once, after the last update.",
  ["pol/pol.go", "verkle/tree.go"],
  [("root memorisation", "pol/pol.go DBMemorizeRoot"), ("Root", "pol/pol.go LiabilitySet.Root")],
  [("memorised root", "cached bytes of the root vertex", "pol/pol.go DBMemorizeRoot.root")],
  ["pol.LiabilitySet.Root compared with the root vertex in the DB"])
p("C04", "The total proof opens to exactly the sum of all liabilities, and to nothing else",
  "After any history the reported total is the exact sum of all current liabilities and its proof is accepted against the current root. It is rejected for every other total (including the negated one) and against every other root, including the roots of earlier and later states.",
  ["histories", "inputs"], "every history with total below 2^63, every claimed total, every root of the same or another set",
  "One history of two inserts; acceptance only, no wrong total or wrong root is ever tried.",
  ["pol/pol.go", "pp/pointproofs.go"],
  [("ProveTot / TotalProof.Verify", "pol/pol.go"), ("opening check", "pp/pointproofs.go Verify")],
  None, ["pol.LiabilitySet.ProveTot", "pol.TotalProof.Verify"])
p("C05", "Every stored liability can be proved and its proof verifies",
  "For every id in the set, after any history, proving yields the liability currently stored and a proof the verifier accepts against the current root for that id, in parallel and sequential mode alike. For an id not in the set proving reports absence.",
  ["histories", "inputs", "configurations", "schedules"], "every history, every id in it, amounts and totals in [0,2^63), supported fan-outs and tree types, depths with and without padding, every goroutine schedule",
  "One fresh insert per test at fan-out 7; no overwrites, no boundary amounts, no other geometry.",
  ["pol/pol.go", "verkle/tree.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "pp/pointproofs.go"],
  [("ProveLiability", "pol/pol.go"), ("LiabilityProof.Verify", "pol/pol.go")],
  None, ["pol.LiabilitySet.ProveLiability", "pol.LiabilityProof.Verify"])
p("C06", "A liability proof convinces only of the true id, amount and root",
  "A proof produced for one id, amount and state of the set is rejected when it is presented with any other amount (including the negated one), for an id with a different path, or against a root other than the one it was made for. A prover that claims an amount other than the committed one, whatever witnesses it feeds the proving algorithms, is rejected.",
  ["inputs", "histories"], "every honest proof combined with every other claim, id and root; every prover deviation that changes the claim",
  "No test presents a proof with a wrong claim; the suite has no negative case at all.",
  ["pol/pol.go", "pp/pointproofs.go"],
  [("root comparison", "pol/pol.go LiabilityProof.Verify"), ("client opening", "pol/pol.go Verify + pp.Verify")],
  None, ["pol.LiabilityProof.Verify"])
p("C07", "The verifier accepts only one chain of vertices per root: no equivocation",
  "A proof is accepted only if every vertex it shows, from the root down to the one holding the liability, is the vertex its parent commits to, the amounts agree along the chain, every vertex adds up to its own sum, and no amount is out of range. A chain with a substituted, re-hashed, unbalanced, mis-linked, negative-valued, additional or missing vertex is rejected at every depth, even when every other part is internally consistent.",
  ["inputs", "configurations"], "every depth position and every single way in which the chain can break while all other checks are satisfied",
  "Tests never build a dishonest chain; each verifier check could be dropped without a test noticing.",
  ["pol/pol.go", "pp/pointproofs.go", "poe/poe.go", "sum/sa.go", "bp/range.go"],
  [("hash links", "pol/pol.go checkCommitmentToInnerVertex/LeafVertex"), ("aggregated digest opening", "pp/pointproofs.go VerifyAggregation"), ("equalities, sum argument, range proofs", "pol/pol.go LiabilityProof.Verify")],
  None, ["pol.LiabilityProof.Verify on proofs assembled by a cheating prover"])
p("C08", "Changing any component of a liability or total proof makes it invalid",
  "Replacing any single group element or scalar that the verifier relies on, in any sub-proof and at any layer, by a different one makes verification fail. Exchanging components between layers, or between valid proofs about different vertices, also makes it fail. A liability proof whose top-level lists do not have the length the id demands is rejected with an error rather than a crash.",
  ["inputs"], "every element of every sub-proof at every layer, several replacement values each, pairs of proofs, missing/extra list entries",
  "No test modifies a proof.",
  ["pol/pol.go", "bp/range.go", "bp/ir.go", "bp/innerprod.go", "sum/sa.go", "poe/poe.go", "pp/pointproofs.go"],
  [("LiabilityProof.Verify", "pol/pol.go"), ("sub-verifiers", "bp, sum, poe, pp")],
  None, ["pol.LiabilityProof.Verify", "pol.TotalProof.Verify"])
p("C09", "Vector commitments open at every position to the committed value only",
  "For every vector and position, the opening of a commitment verifies for the committed value and for no other value, position, commitment or altered proof. Updating a commitment in place at any position gives the commitment of the updated vector, any number of times. Openings do not depend on the value at the opened position being zero, negative-represented or large.",
  ["inputs", "histories"], "every vector length, vector, position, claimed value; every update sequence",
  "Only acceptance of random vectors at N=128; no rejection, no zero or boundary entries; the update test never recomputes the commitment.",
  ["pp/pointproofs.go", "common/math.go"],
  [("Commit/Open/Verify/Update", "pp/pointproofs.go")], None, ["pp.Commit/Open/Verify/Update"])
p("C10", "Aggregated openings verify exactly for the true set of opened values",
  "Aggregating openings of several commitments (different vectors, different positions, any number) verifies with the correspondingly combined values. It is rejected if any commitment, position, value, or opening differs, if commitments are reordered, or if the combined value or aggregate is altered.",
  ["inputs"], "every number of commitments, every choice of positions and values, every single deviation",
  "One acceptance test with two commitments opened at position 0.",
  ["pp/pointproofs.go"],
  [("Aggregate/VerifyAggregation/RO", "pp/pointproofs.go")], None, ["pp.Aggregate", "pp.VerifyAggregation", "pp.RO"])
p("C11", "Range proofs are accepted for exactly the vectors with all entries below 2^63",
  "For every committed vector whose entries all lie in [0,2^63) the range proof is accepted, whatever the entries, for every supported vector length. A proof is rejected if the commitment is to another vector, if an entry is negative or at least 2^63, if the digits used are not bits, or if any element of the proof is changed.",
  ["inputs", "configurations"], "every vector (boundaries 0, 1, 2^k, 2^k-1, 2^63-1), every length that is a power of two, every prover deviation",
  "One acceptance test: eight times the number 100.",
  ["bp/range.go", "bp/ir.go", "bp/innerprod.go", "common/math.go"],
  [("ProveRange/VerifyRange", "bp/range.go")], None, ["bp.ProveRange", "bp.VerifyRange"])
p("C12", "Sum arguments are accepted exactly when the last entry is the sum of the others",
  "For one committed vector, or many at once, the sum argument is accepted if in each vector the last entry equals the sum of all the others. It is rejected if in any one vector it does not, if it is checked against a different commitment or list of commitments (other, reordered, missing or extra; a list extended by commitments to nothing, the neutral element, apart), or if any element of it is changed.",
  ["inputs"], "every vector length (power of two), every number of vectors, every position of the single unbalanced vector",
  "Only acceptance for random balanced vectors is tested.",
  ["sum/sa.go", "bp/innerprod.go", "common/math.go"],
  [("NewArgument/Verify, NewAggregatedArgument/VerifyAggregated", "sum/sa.go")], None, ["sum package API"])
p("C13", "Equality arguments are accepted exactly when all paired entries are equal",
  "For one pair, or a batch of pairs, of committed vectors and chosen positions the equality argument is accepted if the paired entries are equal. It is rejected if in any one pair they differ, if any position or commitment presented to the verifier differs, or if any element of the argument is changed.",
  ["inputs"], "every vector length, batch size (power of two), positions (including equal, first and last), values (including zero), every single unequal pair",
  "Only acceptance for random equal entries is tested.",
  ["poe/poe.go", "pp/pointproofs.go", "bp/innerprod.go"],
  [("Equality.Prove/Verify, Equalities.Prove/Verify", "poe/poe.go")], None, ["poe package API"])
p("C14", "Inner-product arguments are accepted exactly for the true inner product",
  "For every pair of vectors (power-of-two length) the argument is accepted for their commitment and their inner product. It is rejected for any other claimed product or commitment, including a commitment and product shifted together in a way computable from the public parameters, and when any element of it is changed.",
  ["inputs"], "every vector pair and length, every other claim, every joint shift of commitment and product",
  "One acceptance test of length 8.",
  ["bp/innerprod.go", "common/math.go"],
  [("instance-specific parameters bind the statement", "bp/innerprod.go computeInstanceSpecificParams"), ("prove/verify", "bp/innerprod.go")], None, ["bp.NewInnerProdArgument", "InnerProductProof.Verify"])
p("C15", "Iterated reduction verifies and yields the true folded value only",
  "For every vector of power-of-two length (two or more) the reduction of its commitment verifies, and the verifier derives the same challenges and final value as the prover. It is rejected if the starting commitment, any intermediate element at any round, or the final value differs from what the committed vector gives.",
  ["inputs"], "every length, vector and round; every deviation confined to one round",
  "The test runs the prover only; its verification call is commented out.",
  ["bp/ir.go"],
  [("IterativeReduce/IterativeVerify", "bp/ir.go")], None, ["bp.IterativeReduce", "bp.IterativeVerify"])
p("C16", "Nine-digit ids map one-to-one to fixed-length in-range paths",
  "For every permitted fan-out, every nine-digit decimal id, including those with leading zeros, maps to a path of one fixed length whose entries are all below the fan-out, always the same path, and two different ids never share a path. Strings that are not nine decimal digits are refused, and a fan-out that cannot be supported is refused rather than looping.",
  ["inputs", "configurations"], "all 10^9 ids, all permitted fan-outs, all malformed strings",
  "Four large ids at fan-out 7 are tested; short numbers, boundaries between digit counts and other fan-outs are not.",
  ["sparse/tree.go", "common/math.go"],
  [("DigitPath/DigitPathLen", "sparse/tree.go")], None, ["sparse.DigitPath", "sparse.DigitPathLen"])
p("C17", "Hexadecimal ids map deterministically to full-length in-range paths",
  "For every supported fan-out, every hexadecimal id maps to a path of exactly the length advertised for that fan-out, with entries below the fan-out, always the same. An id whose number already has that many base-fan-out digits maps to exactly those digits, so such ids never collide; any other id maps to the path of the first of its successive hashes that does. Strings that are not hexadecimal numbers, signed ones included, and unsupported fan-outs are refused.",
  ["inputs", "configurations"], "all hexadecimal ids of any length, all supported fan-outs, malformed strings",
  "Random full-length ids are checked for length only; digit values, determinism, short, boundary and malformed ids are not.",
  ["sparse/tree.go"],
  [("HexId2PathForFanOut", "sparse/tree.go")], None, ["sparse.HexId2PathForFanOut", "sparse.ExpectedHexPathLengthByFanOut"])
p("C18", "Vertices survive storage unchanged and serialization covers the whole tree",
  "Reading back any stored vertex gives exactly the numbers, digests, blinding factor, sum and commitments that were stored, whatever its occupancy. Serializing a tree emits every vertex exactly once, parents before children, each under its own path and, for every vertex above the liabilities, with its current stored content.",
  ["histories", "inputs"], "every tree reachable by updates, every occupancy of a vertex, boundary values",
  "The serialization test ignores the output; no test compares a vertex with its stored form.",
  ["verkle/tree.go", "sparse/tree.go"],
  [("Vertex.Bytes/FromBytes", "verkle/tree.go"), ("Serialize", "verkle/tree.go, sparse/tree.go")], None, ["verkle.Vertex.Bytes/FromBytes", "verkle.Tree.Serialize output"])
p("C19", "Proving and verifying change nothing and do not interfere with each other",
  "Verifying any proof, against the right or a wrong statement, leaves the proof and the public parameters unchanged; proving and querying leave the set unchanged. Hence verdicts are the same in any order, when repeated, in parallel or sequential mode, and when many provers and verifiers run at the same time on shared objects.",
  ["schedules", "histories"], "every interleaving of concurrent verifications and proofs over shared sets, proofs and parameters",
  "Tests run each operation once, alone.",
  ["pol/pol.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "verkle/tree.go"],
  [("per-layer goroutines and their join", "pol/pol.go ProveLiability/Verify"), ("sub-verifiers", "bp/range.go VerifyRange, sum/sa.go Verify, poe/poe.go Verify")], None, ["all Prove*/Verify* calls, deep snapshots before and after"])
p("C20", "Masks are fresh: commitments and proofs never repeat random material",
  "Two sets with the same content have different root commitments, and every vertex has its own blinding factor. Two proofs of the same statement share no masked element, and no masked element occurs twice within a proof. Every hidden number has its own full-size random mask. A commitment never equals the unblinded commitment of its content.",
  ["histories", "inputs"], "every content, every number of sets and proofs, every sub-proof",
  "No test compares two proofs or looks at blinding.",
  ["verkle/tree.go", "bp/range.go", "sum/sa.go", "poe/poe.go", "common/math.go"],
  [("random blinding factors", "verkle/tree.go"), ("RandVec / NewRandomZr masks", "bp/range.go, sum/sa.go, poe/poe.go")], None, ["all elements of proofs and stored vertices"])
p("C21", "Redoing an interrupted update repairs the set completely",
  "If the database fails at any write during an update, repeating that update (or setting the same id to another amount) brings the set back to a state in which all stored vertices, the root, the total and all proofs are consistent with the liabilities. Ids not touched by interrupted updates keep their liabilities throughout.",
  ["crash_points", "fault_sequences", "histories"], "every write of every update as failure point, failing before or after the write took effect, several failures in a row, other updates in between",
  "No test uses a failing database.",
  ["sparse/tree.go", "verkle/tree.go", "pol/pol.go"],
  [("recompute from stored children", "verkle/tree.go"), ("create when no vertex data", "sparse/tree.go Put + verkle/tree.go updateInnerVertex")], None, ["DB Put sequence with injected panics"])
p("C22", "The path tree recomputes each ancestor once, bottom-up, with current children",
  "For any path length and any aggregation function, one insertion recomputes every ancestor of the leaf exactly once, from the lowest to the root, each time with its own key, its previous data, the current data of all its children by position, whether the children are leaves, and the position that changed. Distinct vertices have distinct keys that stay the same forever, and lookups return the data and ancestors along the id's path, root first.",
  ["histories", "inputs"], "every insertion sequence, fan-out, path length, aggregation function",
  "Tests use a two-level binary tree and additive aggregation; keys, previous data and child lists are never examined.",
  ["sparse/tree.go"],
  [("Tree.Put upward loop", "sparse/tree.go"), ("rawData", "sparse/tree.go")], None, ["UpdateInnerVertex callback arguments", "sparse.Tree.Get"])
p("C23", "Public parameters are well formed for every fan-out and tree type",
  "For every permitted fan-out and tree type, the generated parameters form a consistent structured reference string with the one critical power withheld, the commitment, sum, range and equality components agree on their shared generators and on sizes fitting the path length, all other generators are distinct and reproducible by hashing public labels to the curve, and two generations are independent. A proof made under one set of parameters is not accepted under another.",
  ["configurations", "inputs"], "every permitted fan-out and both tree types",
  "Only fan-out 7 is ever generated and its structure is never examined.",
  ["pol/pol.go", "pp/pointproofs.go", "sum/sa.go", "bp/range.go", "poe/poe.go", "common/math.go"],
  [("GeneratePublicParams", "pol/pol.go"), ("NewPublicParams", "pp, sum, bp, poe")], None, ["pol.GeneratePublicParams output", "pp.NewPublicParams output"])
p("C24", "The vector algebra computes what its definitions say",
  "Sums, differences, scalar and component-wise products, inner products, powers, bit decompositions, alternating halves, weighted group sums and pairing products return exactly what their definitions give, for every length and operands, including zero, negative and unreduced scalars and equal, opposite and neutral group elements; hashing digests to scalars is deterministic, reduced, and separates different digests. Scalar vectors of different lengths are refused, and no operation changes its operands.",
  ["inputs"], "every length and every operand of every vector operation, special cases of group arithmetic included",
  "Only a few operations are tested, each on one vector of ordinary numbers; operands are never compared afterwards.",
  ["common/math.go"],
  [("Vec, G1v, G2v operations", "common/math.go"), ("FieldElementFromBytes", "common/math.go")], None, ["results and operands of common.Vec/G1v/G2v operations"])
p("C25", "Reported sizes count every element once",
  "The size reported for public parameters, proofs and each of their parts is the number of bytes of all the group elements and scalars they hold, whatever the fan-out, path length, or content; elements that components of the parameters share are counted once, and elements repeated in a proof as often as they occur.",
  ["inputs", "configurations"], "every fan-out, depth and component; the sizes are what the published measurements report",
  "No test looks at a size.",
  ["pol/pol.go", "pp/pointproofs.go", "sum/sa.go", "bp/range.go", "bp/innerprod.go", "poe/poe.go", "common/math.go"],
  [("Size of parameters", "pol/pol.go PublicParams.Size"), ("Size of proofs", "pol/pol.go LiabilityProof.Size and its parts")], None, ["Size() of every structure"])

p("C26", "Misshapen proofs are refused with an error, never fatally",
  "For every proof whose lists (vertices, digests, range proofs, cross terms, reduction rounds, aggregated commitments) have other lengths than the parameters and the path call for - shorter, longer, empty, one or several at once - verification reports an error, in sequential and parallel mode and in each sub-verifier: it never accepts, panics, or brings the process down.",
  ["inputs", "configurations"], "every list of every proof, every length, several lists at once, both modes, every fan-out and path length",
  "Tests never change the length of any list; in parallel mode a panic ends the verifier's process.",
  ["pol/pol.go", "bp/innerprod.go", "bp/ir.go", "bp/range.go", "poe/poe.go", "sum/sa.go"],
  [("LiabilityProof.Verify, TotalProof.Verify", "pol/pol.go"), ("verify, IterativeVerify", "bp/innerprod.go, bp/ir.go"), ("Equalities.Verify", "poe/poe.go")], None, ["verdicts on reshaped proofs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
