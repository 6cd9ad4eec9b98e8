"""C13 and C21: one run of a constructor per documented parameter."""
import ast
import ir, mon, simjobs, simmon

# README.md: parameter -> (kind, required, least value 1)
SIM = {"res_file": ("text", True, False), "SNR_val_trn": ("pairs", False, True), "EbNo_values": ("group", False, True),
       "min_trials_per_snr": ("number", False, True), "min_errors_per_snr": ("number", False, True),
       "random_codeword": ("switch", False, False), "ml_lb": ("switch", False, False)}
RM = {"RM_m": ("number", True, True), "RM_r": ("number", True, True)}
CODECS = {"dtrm0_bg": dict(RM), "dtrm1_bg": dict(RM),
          "dtrm_glp_bg": dict(RM, border_node_mask=("mask", True, False), border_node_lsize=("number", True, True)),
          "ca_polar_scl_bg": {"c_m": ("number", True, True), "info_bits_mask": ("mask", True, False), "ca_polar_crc": ("mask", False, False), "list_size": ("number", True, True)}}
LISTS = {"permutations"}                    # documented, not decided
MORE = {"ml_lb_hard", "fixed_R", "use_variable_list", "distance_threshold"}
IMPLIED = {"border_node_lsize": {"use_variable_list"}, "ml_lb": {"ml_lb_hard"}, "EbNo_values": {"SNR_val_trn"}, "SNR_val_trn": {"EbNo_values"}}


def run(prop):
    jobs, keys = [], []

    def add(drv, tgt, tab, key):
        kind, req, pos = tab[key]
        if prop == "C13" and not (req or pos):
            return

        def mk():
            ms = [mon.Harness()] + ([mon.CodecContract()] if drv == "sinit_driver" else [])
            return ms + [simmon.Params(key, kind, set(tab) | LISTS, MORE, IMPLIED.get(key, ()), req, pos)]
        jobs.append((drv, tgt, mk, dict(maxparts=300)))
        keys.append(key)
    for k in SIM:
        add("sinit_driver", "dtrm0_bg", SIM, k)
        if prop == "C13":
            continue
    for t, tab in CODECS.items():
        for k in tab:
            add("cinit_driver", t, tab, k)
    rs = simjobs.run(jobs)
    bad, cov = simjobs.summary(rs, prop, ["instances", "names_compared", "values_read"] if prop == "C21" else ["instances", "settings_bounded"])
    cov["parameters"] = ["%s of %s" % (k, j[1] if j[0] == "cinit_driver" else "every simulator") for k, j in zip(keys, jobs)]
    if prop == "C21":
        used = {}
        for k, r in zip(keys, rs):
            for t in r["obs"].get("firsts", ()):
                for off in ast.literal_eval(t)[1]:
                    for k2 in used.get((r["drv"], r["tgt"], off), ()):
                        if k2 != k and k2 not in IMPLIED.get(k, ()):
                            bad.append((r["tgt"], "(set-up): %s and %s are kept in the same place" % (k, k2)))
                    used.setdefault((r["drv"], r["tgt"], off), set()).add(k)
    return bad, cov
