#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+/TLC: prover algorithm against the verification relation, trace validation of proofs made by the code",
         "Completeness of the specified prover is model-checked exhaustively over fields of 2-3 elements for all keys and prover randomness; the code's proofs on groups of order 3, 5, 10007 and BLS12-381 are checked by TLC against the specified relation and verdict."),
 "C02": ("TLA+/TLC: relation implies the opened statement; trace validation of verdicts",
         "Soundness of the specified relation is model-checked over all provers of small fields; the code's verdicts are recorded for honest, perturbed, forged, transplanted and (order 3) exhaustively enumerated bundles and compared with the specified relation by TLC."),
 "C03": ("TLA+ well-formedness predicates; trace validation of refusals",
         "Every way of truncating, extending, relabelling or mismatching one or two parts of a bundle, at many sizes; TLC decides from the recorded shapes that the call had to refuse."),
 "C04": ("TLA+/TLC: witness indistinguishability of the specified prover; sampled distributions of the code judged in TLA+",
         "Exact equality of distributions is model-checked on small fields; the code is sampled on groups of order 3 and 5 and the distribution of proofs given the commitments is compared with the specified uniform one (chi-square bounds so wide that false alarms are practically impossible); small biases escape."),
 "C05": ("TLA+ key predicate and joint distribution of secrets; trace validation of generated keys",
         "Each generated key is checked exactly (model-checked over every choice of the secrets on small fields); sixteen keys and more are compared for secrets that coincide, independence is judged by the joint distribution over thousands of keys on toy groups, and by an information bound on sources of randomness that share part of their words on BLS12-381."),
 "C06": ("TLA+ commitment contract; trace validation (exact discrete logarithms on toy groups, exact expected values on BLS12-381)",
         "Every commitment entry is compared with the contract for the eight commit functions, special values and batch sizes up to several hundred."),
 "C07": ("TLA+ solves for the blinding scalars of recorded proofs; joint distributions of pairs; entropy bound on shared sources",
         "Blinding scalars of commitments are recorded by the library, those of proofs are solved for in TLA+; joint distributions of all pairs must cover the field on toy groups, and on BLS12-381 no two scalars may coincide, across calls whose sources share part of their words."),
 "C08": ("TLA+ state machine of commitment lists; TLC-generated histories replayed on the code, recorded traces validated",
         "All histories within small bounds are model-checked on the specification, and hundreds of TLC-generated histories (up to 300 values per list) are replayed on the code on four groups, each observation being validated."),
 "C09": ("TLA+ state machine of multi-equation statements; TLC-generated histories replayed on the code, recorded traces validated",
         "As C08, with histories that prove and verify several equations of all types over shared lists, including crossed (equation, proof) pairs."),
 "C10": ("TLA+ group contracts; trace validation", "All operators on B1, B2, BT with special values; contracts are exact."),
 "C11": ("TLA+ pairing and linear-map contracts; trace validation", "All maps and pairing sums, with special values and lists up to several dozen; contracts are exact."),
 "C12": ("TLA+ matrix contracts and schedule model; trace validation over thread pools",
         "Every operation of Mat on compatible and incompatible shapes (also hundreds of entries), with parallel and sequential forms on pools of 1..16 threads, nested and concurrent, a hang counting as a failure."),
 "C13": ("TLA+ wire grammar; trace validation of encodings and decodings",
         "On toy curves TLC computes the whole encoding; on BLS12-381 lengths, equality and use after decoding are checked."),
 "C14": ("TLA+ wire decoder; trace validation of decoding results of mutated bytes",
         "On toy curves, one of them with cofactors, every outcome of checked, unchecked and batch-checked decoding is compared with the specified decoder, exhaustively for short inputs; on BLS12-381 categories of mutations, with points outside of the subgroup."),
 "C15": ("TLA+ memo machine; trace validation across thread pools, repetitions, call orders and concurrent callers",
         "Equal inputs and equal random source must give equal results for all recorded calls, with neighbouring inputs, refused calls, decodings and maps between them, in one process and in fresh ones."),
 "C16": ("TLA+ equality contract; trace validation of comparisons, clones and labels",
         "Pairs of artefacts (of one and of several rows and columns) that differ in at most a part are compared by the code; TLC compares what they consist of."),
}
NA = {}
import sys
sys.path.insert(0, os.path.join(V, "bin"))
import plans
checks, na = [], []
for p in sorted(T):
    if p in plans.PLANS:
        checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "model_checking",
                       "level_note": T[p][1] + " Trusts arkworks, TLC and the discrete-logarithm tables of the toy groups."})
    else:
        na.append({"property": p, "reason": "its check is still being built"})
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
