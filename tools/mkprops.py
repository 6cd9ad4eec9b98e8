#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
import re
def where(m, files):
    hits = [f for f in files if f.endswith(".c") and os.path.exists("/repo/" + f)
            and re.search(r"(?m)^(static |int |void |size_t |double )?.*\b%s\(" % m, open("/repo/" + f).read())]
    return ", ".join(hits) or files[0]
def prop(id, title, statement, over, text, why, files, **anch):
    a = {"files": files,
         "mechanism": [{"name": m, "where": where(m, files)} for m in anch["symbols"]]
                      or [{"name": "format selection and operation macros", "where": files[0]}]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CODECS = ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c",
          "polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "rm1_ml/rm1_ml.c",
          "common/srm_utils.c", "common/crc.c"]
SIM = ["simulators/sim_bg.c", "simulators/main_txt.c"]
PAR = ["common/spf_par.c", "common/spf_par.h"]

prop("C01", "Encoding, decoding and CRC checking leave the caller's inputs unmodified",
 "Encoding never writes to the information vector it is given, decoding never writes to the received vector it is given, and computing or checking a CRC never writes to the data or to the polynomial; reading a parameter string to create a codec never writes to that string. The only caller memory written is the declared output.",
 ["inputs", "configurations"], "every codec, configuration, input vector and every path through the encoder, decoder and CRC routines",
 "The tests compare outputs on a few vectors and never compare the inputs before and after; a write that happens only on one branch or for one configuration is invisible to them.",
 CODECS, symbols=["enc_bpsk", "dec_bpsk", "calc_crc", "is_valid_crc", "cdc_init"])
prop("C02", "Encoding and decoding depend only on the codec instance and the input",
 "The result of an encode or decode call is determined by the codec instance (its configuration and the channel state last set on it) and the input vector: it does not depend on earlier calls or on other codec instances alive in the process, on uninitialised memory, on random numbers, on the clock or on the environment. Encoding and decoding leave the instance's configuration as it was, except that a decoder using variable list sizes re-adjusts its working list size.",
 ["histories", "inputs", "configurations"], "every sequence of encode/decode calls on any number of codec instances, every configuration",
 "The tests use one fresh instance per case; state leaking between calls or instances needs particular histories to show.",
 CODECS, symbols=["enc_bpsk", "dec_bpsk"])
prop("C03", "Every resource is released exactly once on every path",
 "Every memory block and every file opened by initialising, running, saving or closing a simulation, by creating, using or closing a codec, by reading a parameter file or by loading a results file is released exactly once, on success and on every failure path (out of memory, unreadable or malformed files, codec errors), or is owned by the live instance that the caller later closes. Nothing is used after it was released.",
 ["fault_sequences", "inputs", "configurations"], "every combination of allocation, open and read failures, malformed parameters and ordinary completion",
 "The tests never fail an allocation or a file operation and never run the simulator; leaks and double releases on error paths do not change any tested output.",
 SIM + PAR + CODECS + ["Octave/loadsrf.c"], symbols=["sim_init", "sim_run", "sim_save_res", "sim_close", "cdc_init", "cdc_close", "spf_read_preparse", "spf_tryread_preparse"])
prop("C04", "Failures are always reported and never mistaken for success",
 "When memory allocation fails, the parameter file or one of its includes cannot be opened, the results file cannot be created or completely written, its busy flag cannot be created, or the encoder or decoder reports an error, the operation in progress (creating a codec or simulation, running, saving, encoding, decoding) returns an error to its caller. The program's exit status is zero only if initialisation, the whole simulation and the final save all succeeded.",
 ["fault_sequences", "inputs"], "every point at which an allocation, open, write or codec call can fail, on every path",
 "The tests inject no failures at all.",
 SIM + PAR + CODECS, symbols=["main", "sim_init", "sim_run", "sim_save_res", "cdc_init", "enc_bpsk", "dec_bpsk"])
prop("C05", "Truncated or malformed files and failed calls never lead to a null dereference",
 "Whatever the contents of the parameter file, of its includes, of the codec parameter string and of an existing results file (cut off after any token, missing values, unbalanced groups), and whichever allocations or opens fail, the programs and the results loader never dereference a missing token, a failed allocation or an unopened file.",
 ["inputs", "fault_sequences"], "every file content and every allocation or open failure",
 "The tests parse three well-formed strings and an empty one.",
 PAR + SIM + CODECS + ["Octave/loadsrf.c"], symbols=["sim_init", "cdc_init", "sim_save_res", "spf_read_preparse", "tryread_group_int_param", "mexFunction"])
prop("C06", "No file content can overrun the tables filled from it",
 "Reading a parameter file with its includes, a codec parameter string or an existing results file never writes outside the buffers that hold the text, the parsed tables (SNR values, trial counts, counters, list sizes, thresholds, permutations, masks, CRC) or the file names, whatever the length or the number of items in the file. Merging results never grows the SNR table beyond its capacity.",
 ["inputs"], "every length and number of tokens, items, includes and SNR points in the files read",
 "The tests use tiny configurations; overruns need oversize or inconsistent files.",
 PAR + SIM + ["dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", "Octave/loadsrf.c"], symbols=["sim_init", "cdc_init", "sim_save_res", "spf_read_preparse_ext", "tryread_group_int_param", "mexFunction"])
prop("C07", "The busy flag protects every access to the results file and is always removed",
 "While saving, the results file is read and written only after the busy-flag file was found absent and then created; the flag is removed on every path once it was created, but only after the results file was closed. A saver that finds the flag busy or cannot create it neither touches the results file nor removes the flag.",
 ["schedules", "fault_sequences", "inputs"], "every interleaving point at which another process' flag may exist, every failure while saving",
 "No test runs the saver; the protocol matters only with concurrent or failing savers.",
 ["simulators/sim_bg.c"], symbols=["sim_save_res"])
prop("C08", "Saving adds exactly the unsaved trials to the results file",
 "Saving adds to each SNR point of the results file, counter by counter, exactly the trials simulated since the last successful save (all trials of the simulation if there is no results file), and leaves the other points of the file as they were; points are matched by SNR value and no second point of an SNR value the file already has is added. Trials are marked as saved only after the file was completely written, so a failed save followed by a successful one loses and duplicates nothing, and an existing non-empty results file that cannot be read is never overwritten.",
 ["histories", "fault_sequences", "inputs"], "every sequence of runs and saves, every set of SNR points in the file and in the simulation, every failing save",
 "No test saves results; double counting needs a particular history of saves, failures and file contents.",
 ["simulators/sim_bg.c"], symbols=["sim_save_res"])
prop("C09", "Results are written and read under the same names with the right meaning",
 "Each counter is written to the results file under the name under which the saver and the loader read it back, with enough digits for SNR values to match on the next save; every array written has the same number of items. Every error rate shown, saved or loaded is the ratio of its own error counter to its own number of trials (bit errors to trials times information length), computed without integer division or integer overflow.",
 ["inputs", "histories"], "every set of counter values and SNR points",
 "No test writes or reads a results file or computes a rate.",
 ["simulators/sim_bg.c", "Octave/loadsrf.c", "common/spf_par.c"], symbols=["sim_save_res", "sim_cur_res_str", "mexFunction"])
prop("C10", "Every simulated trial is counted once, completely and at its own SNR point",
 "Each successfully decoded trial adds exactly one to the trial counter of the current SNR point; it adds one block error and the number of differing information bits exactly when the decoded information differs from the transmitted one, one erasure exactly when the decoder reports an erasure, and, only when the ML bound is requested and the decoder did not report an erasure, one ML trial, plus one ML error exactly when the decoded codeword is strictly closer to the channel output than the transmitted one. A trial whose codeword could not be encoded or whose decoding failed is not counted, and no other point is touched.",
 ["histories", "inputs", "fault_sequences"], "every trial outcome, every SNR point, every simulation setting",
 "No test runs the simulator.",
 ["simulators/sim_bg.c"], symbols=["sim_run"])
prop("C11", "Simulations are reproducible and resumable",
 "The random generator is seeded only when the user did not ask for a reproducible run, and the clock is otherwise used only to decide when to return to the caller. Returning early and calling the run again continues with the same SNR point and counters, so that the trials simulated do not depend on how often the run returns.",
 ["histories", "schedules"], "every return and save interval, every number of interruptions",
 "No test runs the simulator; the effect of timing needs comparing runs interrupted at different moments.",
 SIM, symbols=["main", "sim_init", "sim_run"])
prop("C12", "Every trial is simulated and decoded at the noise level of its SNR point",
 "For every trial the channel noise is generated with standard deviation 1/sqrt(2*R*10^(SNR/10)) of the SNR value of the point the trial is counted at, where R is the code rate or the fixed rate if one is given, and the decoder was told this same deviation and, where it needs it, this same SNR index, before decoding the trial.",
 ["histories", "configurations", "inputs"], "every SNR point and trial, across interruptions and SNR changes",
 "No test runs the simulator; a stale noise level only shifts error rates statistically.",
 ["simulators/sim_bg.c"] + CODECS[:5], symbols=["sim_run", "cdc_set_sg", "cdc_set_csnrn"])
prop("C13", "Only complete and supported configurations are accepted",
 "A codec or simulation is created successfully only if every parameter documented as required was given. Every number documented as positive and required (code order and length parameters, list size) was given between one and a fixed limit, and the polar information mask has a digit for every code position. A simulation is created only with at least one SNR value (SNR_val_trn or EbNo_values, within the supported number of values) and with at least one trial and one block error required per point, whatever numbers the file gives.",
 ["configurations", "inputs"], "every subset of the parameters and every integer value given for them",
 "The tests leave out two parameters of two codecs and give no out-of-range value.",
 ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", "simulators/sim_bg.c"], symbols=["cdc_init", "sim_init"])
prop("C14", "The decoders' working memory is large enough for all its parts",
 "For every accepted configuration the scratch memory a decoder allocates covers all the arrays it lays out in it, the arrays do not overlap, and each has at least the number of elements the decoder initialises it for (list tables for all list cells including those freed last, one reliability row pool per level for all paths, candidate storage for all returned candidates).",
 ["configurations"], "every code order, list size and number of permutations",
 "The tests run one tiny configuration; a too small buffer shows only for larger lists or several permutations.",
 ["dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "rm1_ml/rm1_ml.c"], symbols=["cdc_init", "dec_bpsk"])
prop("C15", "List decoding paths stay complete and bounded",
 "When the list decoders split a path, the copy takes over the path's metric, its decoded bits, its permutation and its reliability pointers; every list cell is either in the current list or free, never both; and after each split the list is cut to the list size of that node by dropping paths with the lowest metric.",
 ["inputs", "configurations"], "every list size, code and received vector",
 "A path that lost one of its attributes usually still decodes correctly with the tiny lists and codes of the tests.",
 ["dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c"], symbols=["rm_dec", "polar_dec"])
prop("C16", "Reed-Muller encoding, dimension and noiseless decoding agree",
 "For every supported order and length the encoder consumes exactly the number of information bits reported as the code dimension and produces a codeword of the reported length, and the recursive decoders recover exactly the encoded information from any noise-free codeword.",
 ["configurations", "inputs"], "every supported (r, m) and every information vector",
 "The tests encode one vector of RM(1,3) and decode RM(1,4) only.",
 ["common/srm_utils.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "rm1_ml/rm1_ml.c"], symbols=["enc_bpsk", "dec_bpsk", "calc_rm_k", "mrm_enc_bsc", "mrm_enc_mm_bsc"])
prop("C17", "CRC-aided decoding checks what the encoder appended",
 "The CRC-aided encoder encodes the information bits followed by their CRC, and the decoder accepts a candidate exactly when its CRC part equals the CRC of its information part, using the same polynomial and lengths. Decoding returns success with the best-metric candidate whose CRC is valid, or an erasure together with the best-metric candidate if no candidate of the list is valid; without a CRC it returns the best-metric candidate and success.",
 ["inputs", "configurations"], "every CRC polynomial, information length, list and received vector",
 "The tests use a one-bit CRC and an eight-bit message.",
 ["polar_scl/ca_polar_scl_main.c", "polar_scl/polar_scl_inner.c", "common/crc.c"], symbols=["enc_bpsk", "dec_bpsk", "is_valid_crc", "calc_crc"])
prop("C18", "A point is finished only after its requested trials",
 "The simulation moves on from an SNR point only when at least the number of trials requested for it has been simulated; adapting the requested number to the errors seen so far never lowers it below the minimum the user gave for that point, and only happens while too few block errors were seen (explicit requests through the control function apart).",
 ["histories", "configurations"], "every sequence of trial outcomes and every setting of the minimum trials and errors",
 "No test runs the simulator.",
 ["simulators/sim_bg.c"], symbols=["sim_run"])
prop("C19", "Permutations are applied and undone consistently",
 "The decoder reads the received vector of each path through that path's own symbol permutation at both halves of the code, and the information bits it returns are mapped back through the information permutation belonging to the same path; without the permutations parameter the identity is used for both.",
 ["inputs", "configurations"], "every permutation set, list and received vector",
 "No test uses permutations.",
 ["dtrm_glp/dtrm_glp_main.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c"], symbols=["cdc_init", "rm_dec", "polar_dec"])
prop("C20", "The shipped reliability formats are interchangeable",
 "Every shipped reliability format provides the complete set of operations the decoders use, and in each format the operations agree in sign: converting a received value, combining, inverting and deciding treat positive estimates as votes for 0, equally.",
 ["configurations"], "every shipped format under every decoder that uses it",
 "Only the default format is ever built.",
 ["formats/formats.h", "formats/format_eps5.h", "formats/format_rho1.h", "formats/format_rho5.h"], symbols=[])
prop("C21", "Every documented parameter takes effect",
 "Every documented single-value parameter of the simulators and codecs (numbers, on/off switches, file names, binary masks) and the SNR groups is recognised under its documented name, wherever it stands in the file, and the value given is the value used: it is stored unchanged in the setting it names and in no other parameter's, the items of a group in the order given together with their number, and set-up overwrites it only where it is not positive and a default takes its place. Only words at the place of a parameter name are taken for names: neither values nor items of groups, of known or unknown parameters, are (as long as the file gave no reason for an error message).",
 ["inputs", "configurations"], "every order and combination of parameters",
 "The tests give three keys in one order each.",
 ["simulators/sim_bg.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", "common/spf_par.h", "README.md"], symbols=["sim_init", "cdc_init"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
