#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
TODO = set(sys.argv[1:])
D = {
 "C01": ("exhaustive enumeration of keys, statements, witnesses and all prover randomness on small-order bilinear groups, running the library itself, with traces replayed on BLS12-381",
         "All executions within the listed bounds are run. Larger orders and shapes are covered by deviation-bounded enumeration and by conformance runs on BLS12-381."),
 "C02": ("exhaustive enumeration of adversarial commitments and proofs on small-order groups, each accepted one opened with the key's discrete logarithms and checked against the statement",
         "All adversarial inputs within the bounds; soundness of the algebra for the 255-bit order rests on the code being generic over the group, which conformance traces on BLS12-381 confirm."),
 "C03": ("exhaustive enumeration of public inputs on small-order groups; the verifier's verdict compared with the verification relation of an explicit reference model in exponents",
         "The reference model is bound to the code by running both on every case and by conformance traces on BLS12-381."),
 "C04": ("exhaustive enumeration of the prover's random choices (choice tree of the random source); exact distributions of transcripts compared between all witness pairs",
         "Exact equality of distributions within the bounds; larger shapes by linear-image comparison on enumerated bases."),
 "C05": ("exhaustive enumeration of the committer's random choices; exact joint distributions compared between committed lists", "Exact within the bounds."),
 "C06": ("exhaustive enumeration of keys, values and randomness on small-order groups; injectivity by state hashing and recovery with the trapdoor", "All cases within the bounds."),
 "C07": ("exhaustive enumeration of all outcomes of the random source during key generation on small-order groups", "Exact distribution of generated keys within the bounds."),
 "C08": ("exhaustive enumeration of batch/single/append operation sequences, compared element by element with one batch", "All operation sequences up to the depth bound."),
 "C09": ("depth-bounded exhaustive exploration of operation histories on shared commitments against a reference model", "All histories up to the depth bound over the listed alphabet."),
 "C10": ("exhaustive enumeration of operation histories (all ordered pairs, triples, quadruples over graded alphabets as de Bruijn words) in fresh processes, each result compared with the same call in a fresh process", "All adjacent call pairs over the alphabet, longer histories over sub-alphabets."),
 "C11": ("stateless model checking of the library's parallel code under a controlled work-stealing scheduler, all schedules up to a preemption bound", "All schedules within the bounds of the modelled work-stealing pool (rayon's join protocol), for the task code of the library as compiled."),
 "C12": ("exhaustive enumeration of matrices, vectors and operations on small-order groups against an explicit reference model", "All matrices within the bounds; every shape up to the size bound."),
 "C13": ("exhaustive enumeration of operands and operation sequences on small-order groups against an explicit reference model", "All operands within the bounds."),
 "C14": ("exhaustive enumeration of embedding and pairing operands on small-order groups against an explicit reference model", "All operands within the bounds."),
 "C15": ("exhaustive enumeration of objects, object sequences and encoding modes on small-order groups; transport of whole transcripts", "All objects of the bounded sizes over the order-3 group."),
 "C16": ("exhaustive fault enumeration on byte streams: every truncation, error position, chunking, invalid element position and type number", "Every fault position of every object of the menu."),
 "C17": ("exhaustive enumeration of proof shapes, labels and list lengths around the prescribed ones", "All lengths up to the prescribed number plus two, all labels."),
 "C18": ("exhaustive enumeration of the prover's random choices; exact distributions of encoded bytes compared between witnesses", "Three genuine defects are recorded as known findings; everything else in the encodings is decided exactly within the bounds."),
 "C20": ("exhaustive enumeration of pairs of objects on small-order groups, and of all objects one change away from a given one at full size, comparing the library's == with the equality of their contents", "All pairs of the bounded menus; every single change of the larger objects."),
 "C21": ("exhaustive enumeration of list lengths, matrix shapes and commitment kinds handed to the prover on small-order groups, refusal compared with whether the sizes fit", "All combinations of sizes up to the bound for all four types; single disagreements at larger sizes; BLS12-381 small."),
 "C19": ("exhaustive enumeration of the prover's random choices; the distribution of proofs compared with the uniform distribution on all accepted proofs", "Exact within the bounds."),
}
checks, na = [], []
for pid, (tech, note) in sorted(D.items()):
    if pid in TODO:
        na.append({"property": pid, "reason": "check under construction"})
        continue
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": "model checking: " + tech, "level": "model_checking",
                   "level_note": note + " Trusted: the Rust compiler, arkworks' field arithmetic, the harness."})
json.dump({"version": 1, "setup_cmd": "bash ./build.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library is generic over the pairing engine and takes its random source as an argument; scheduling is controlled through a patched rayon-core in /verif/vendor. See DESIGN.md."},
          open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
