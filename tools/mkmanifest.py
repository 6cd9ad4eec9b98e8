"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = "All four programs and the results loader from the most general client, every file content and every failure of a library call; library functions by hand-written models. "
SIM = "The simulator of all four programs from the most general client (any sequence of run, save, status, close), every file content and failure of a library or codec call; codecs by contract. "
TECH = {
 "C01": ("points-to and write-effect analysis of the codec interface", "All code reachable from the codec interface and CRC functions of the four programs, context-cloned, field-sensitive, flow-insensitive: over-approximates every write. Trusts the effect table of the C library functions used."),
 "C02": ("interprocedural must-written-before-read dataflow with effect analysis", "Scalars and instance fields exactly; array cells by array (which element is written first is not decided); loops are taken to run at least once."),
 "C03": ("abstract interpretation: typestate of heap blocks, files and codec instances with inferred loop invariants", ENG + "Resources inside the recursive decoders by an inductive contract; memory of Octave's own arrays is not tracked."),
 "C04": ("abstract interpretation: pending-failure typestate over all failure outcomes of library and codec calls", ENG + "mxCreate* and mxArrayToString are taken to succeed; failures to write the busy flag's text do not count."),
 "C05": ("abstract interpretation: nullness with all failure outcomes of library calls", ENG + "Dereferences inside the two list decoders' recursion are not decided (they see no file text); their instances must not be created with a failed allocation."),
 "C06": ("abstract interpretation: array bounds by inferred linear invariants and string lengths", ENG + "Writes only; bounds inside the recursive decoders are not part of the property."),
 "C07": ("abstract interpretation: typestate of the busy flag and the results file", SIM + "Two processes looking for the flag at the same moment are not modelled (looking and creating are two operations)."),
 "C08": ("abstract interpretation: typestate of the merge with ghost positions, inductive over all points; two runs", SIM + "SNR values are compared as the code compares them; overflow of counters is not modelled; SNR values given twice by the user are not considered."),
 "C09": ("abstract interpretation: provenance of every number of the text written, of the values loaded and of every rate", SIM + "The loader likewise. Row names are found by the parser's lexical rules; rates of points without trials and rounding are not judged."),
 "C10": ("abstract interpretation: symbolic summary of every path through a trial, loops as sums over array contents", SIM + "The six counters are found as cells of the current point; counter overflow is not modelled."),
 "C11": ("abstract interpretation: effects on the random generator and of the clock, position of the current point", SIM + "The C library generator (the configuration all programs are built with)."),
 "C12": ("abstract interpretation with algebraic comparison of the generated noise expression", SIM + "Expressions are compared by random interpretation; real arithmetic (no rounding)."),
 "C13": ("abstract interpretation of the constructors, one run per documented parameter, with entailed bounds of the stored settings", "The parameter text is arbitrary. Limits are shown to exist, not compared with a documented number; the mask of dtrm_glp is read by a recursive function and its length is not decided; permutations are not decided."),
 "C21": ("abstract interpretation: typestate of the tokenizer and value tracking of each documented parameter into the instance", "The parameter text is arbitrary, after preparsing. permutations and the undocumented parameters are not followed; what the settings do later is C10, C12 and C18."),
 "C18": ("abstract interpretation: linear facts at every change of the current point and of the request", SIM + "Changes made through sim_control are not part of the property."),
}
NA = {
 "C14": "Whether the pools laid out in the decoder's scratch memory are large enough depends on how often a data-dependent recursion takes list cells and reliability blocks (bounded by the list size only through the sequence of splits and frees of all paths); no sound static bound of that number is in reach here, and the sizes in the code are computed by a second recursion over the same node table. Out-of-bounds writes outside the recursion are decided by C06.",
 "C15": "The list discipline is a property of a doubly recursive, data-dependent sequence of splits over linked cells held in arrays; deciding it needs an inductive invariant over the contents of those arrays (each index in exactly one of two lists), which is functional verification and out of reach of the dataflow domains used here.",
 "C16": "Functional correctness: agreement of encoder and recursive decoder for every information word and every order and length is an algebraic induction over the code's recursive structure and over the values of all bits, not a flow or effect property.",
 "C17": "Functional correctness: which candidate is returned depends on metrics and on the CRC arithmetic of bit contents. What a static analysis can say of this code path (no writes to its inputs, failures reported, memory bounds, freed instances) is decided by C01-C06.",
 "C19": "The property compares two permutations element by element (one composed along a recursion with data-dependent permutation choice, one applied at its end); it is functional correctness over array contents, not a flow property.",
 "C20": "The formats differ in their arithmetic (log-likelihoods, probabilities, table look-ups in FORMAT_Q); agreement in sign over all values is a numerical statement about those expressions and tables. Completeness of the operations is settled by the compiler for the programs built.",
}
for i in range(1, 22):
    p = "C%02d" % i
    if p not in TECH:
        NA.setdefault(p, "check under construction")
checks = [dict(property=p, quick_cmd="python3 sa/check.py %s quick" % p, thorough_cmd="python3 sa/check.py %s thorough" % p, technique=t, level="other", level_note=n) for p, (t, n) in sorted(TECH.items())]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())]), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
