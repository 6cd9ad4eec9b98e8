#!/usr/bin/env python3
"""python3 sa/check.py <property> [quick|thorough]: decides one property on the current /repo."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def c01(tier):
    import purity, ir
    bad, cov = purity.c01(ir.PROGRAMS)
    return bad, dict(cov, explanation="Context-cloned points-to and effect analysis of every codec interface function of the four programs, and of the CRC functions: "
                     "every store, library write and callee is attributed to the memory it may reach; none may reach an input of the caller, and the only caller memory "
                     "reached is the declared output.", rule="no write effect of a call may reach the caller's input objects")


def c02(tier):
    import purity, ir
    bad, cov = purity.c02(ir.PROGRAMS)
    return bad, dict(cov, explanation="For every read in code reachable from enc_bpsk/dec_bpsk, under every value of the instance fields that steer branches, either the cell was "
                     "certainly written earlier in the same call, or nobody but cdc_init/cdc_set_* of the same instance writes it; no call to a library function with hidden "
                     "state; no use of an unset local.", rule="no exposed read of a cell that enc/dec or any other instance writes")


ENGINE = ("Abstract interpretation of the compiled program (symbolic affine values with linear facts, loops replaced by inferred inductive invariants, allocation-site "
          "heap, library models with all their failure outcomes) from the most general client of the public interface: every path, every file content. ")


def c03(tier):
    import memcheck
    bad, cov = memcheck.run(dict(life="C03", leak="C03"), "C03", ["access", "free"])
    return bad, dict(cov, explanation=ENGINE + "Typestate of every block, file and codec instance: released once, not used afterwards, and never unreachable while live.",
                     rule="no access to, or second release of, a released resource; no live resource becomes unreachable; nothing live at the end of the client")


def c04(tier):
    import memcheck
    bad, cov = memcheck.run(dict(fail="C04"), "C04", ["fail", "ends"])
    return bad, dict(cov, explanation=ENGINE + "Every failure outcome of an allocation, open, read, write, close or codec call leaves a pending failure that the operation in progress must "
                     "report with its return value; the exit status of main is zero only after a completed run and a successful save.",
                     rule="return value of the operation entails an error whenever a failure is pending")


def c05(tier):
    import memcheck
    bad, cov = memcheck.run(dict(null="C05"), "C05", ["access"])
    return bad, dict(cov, explanation=ENGINE + "strtok may end after any token, every allocation and open may fail; every dereference and every pointer given to a library function "
                     "must be non-null on every path.", rule="no null pointer reaches a dereference")


def c06(tier):
    import memcheck
    bad, cov = memcheck.run(dict(bounds="C06"), "C06", ["access", "bounded"])
    return bad, dict(cov, explanation=ENGINE + "Every write (store or library write) reachable while reading parameter files, codec parameter strings and results files, running and saving must "
                     "be provably inside its array for every file content.", rule="0 <= offset and offset + size <= size of the array, entailed by the inferred invariants")


def c07(tier):
    import simprops
    bad, cov = simprops.run("Busy", "C07", ["flag_checks", "flag_created", "flag_removed", "guarded_opens", "saves_ended"])
    return bad, dict(cov, explanation=ENGINE + "Typestate of the busy flag over every save: looked for, created, results file accesses, results file closed, removed.",
                     rule="results file opened only while the flag is held; flag created only after it was found absent; removed exactly when held and after the results file was closed; not held when the save ends")


def trial(prop, need, text, rule):
    def f(tier):
        import simprops
        bad, cov = simprops.run("Trial", prop, need)
        return bad, dict(cov, explanation=ENGINE + text, rule=rule)
    return f


c10 = trial("C10", ["trials", "decodings"],
            "Every path through one simulated trial is followed symbolically; loops that count or add up become sums over the array contents. What each counter of the current point "
            "changes by is compared with what the decoder returned, the transmitted and decoded information and the two distances.",
            "for each of the six documented counters there is one cell of the current point that changes by exactly the specified amount on every path")
c11 = trial("C11", ["random_numbers", "seedings"],
            "Effects on the random generator and of the clock, and where the number of the current point is held when the run returns.",
            "the generator is seeded only during set-up and only if not told otherwise; numbers are drawn only inside the trial loop; no value depends on the clock and at most one outcome "
            "of a comparison with it goes on simulating; one cell of the simulation always holds the current point")
c12 = trial("C12", ["noise_values", "deviations_told"],
            "The expression stored into each element of the decoder's input is compared (random interpretation of the expressions, not execution) with codeword + deviation * polar-method normal; "
            "the deviation told to the decoder with 1/sqrt(2 R 10^(SNR/10)) of the SNR value of the point the counters belong to.",
            "every element of the decoder's input is generated in the trial with the deviation told to the decoder, which is that of the current point")
c18 = trial("C18", ["requests_adapted", "points_left"],
            "Every change of the current point and of the requested number of trials.",
            "the current point changes only by one and only when trials >= request is entailed; a changed request is entailed to be at least the given minimum and errors < requested errors is entailed")


def c13(tier):
    import params
    bad, cov = params.run("C13")
    return bad, dict(cov, explanation=ENGINE + "One run of the constructor per parameter, with the fact whether it was given kept apart: a constructor that succeeds must have been given every "
                     "required parameter, and what it stored of the others must be entailed to be at least one.",
                     rule="no successful end of a constructor without a required parameter; the cell its value was stored in is >= 1 at every successful end")


def c21(tier):
    import params
    bad, cov = params.run("C21")
    return bad, dict(cov, explanation=ENGINE + "One run of the constructor per parameter: the words of the file are followed through the tokenizer (name, value, group), the value read for the "
                     "parameter is a symbolic constant, and every later store is compared with it.",
                     rule="names are compared only with words at the place of a name; the value is stored unchanged in one place of the instance, which nothing else overwrites")


def c09(tier):
    import rows
    bad, cov = rows.run("C09")
    return bad, dict(cov, explanation=ENGINE + "The text written to the results file and shown is followed as a stream (names, groups, table columns); every value written is traced back to the cell it is "
                     "read from: a counter of the simulation (its meaning found as for C10) or the cell that the number of that name was loaded to. Ratios are compared as expressions; products of "
                     "integers that may not fit are opaque. The loader's fields are traced to the names the same way.",
                     rule="every row is the counter of one meaning, read back under the same name by the saver and the loader; all rows have the same number of values; every rate shown, saved or "
                     "loaded is its own errors / its own trials (0 only where there are none); SNR values have at least 15 digits")


def c08(tier):
    import merge
    bad, cov = merge.run("C08")
    return bad, dict(cov, explanation=ENGINE + "A first run finds the cells the points of the results file are read to, the counters of the simulation with their meaning (C10) and the current point. "
                     "In the second run saving is looked at for any contents of the counters: every store to the points of the file, and every store to the simulation, must be a step of a merge - "
                     "skip a point without new trials, add to the point found by its SNR value, move points to the free place, insert after the value was compared with all, take over a point without a file, "
                     "mark as saved after the file was completely written - and the steps must cover all points up to the current one.",
                     rule="every store while saving is a merge step; file opened for writing only if it was read to the end, is empty or absent; all points covered; marked only after a good close, all counters")


CHECKS = {"C08": c08, "C09": c09, "C13": c13, "C21": c21, "C10": c10, "C11": c11, "C12": c12, "C18": c18, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding: property=%s " % prop):
                out.append(ln.split(" ", 2)[2].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t = time.time()
    import ir
    try:
        bad, cov = CHECKS[prop](tier)
    except ir.AnalysisBroken as x:
        print("analysis cannot run: %s" % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    kn = known(prop)
    new = []
    for pr, txt in bad:
        line = "%s: %s" % (pr, txt)
        m = [k for k in kn if k in line]
        if m:
            print("KNOWN-FINDING: property=%s %s" % (prop, line))
        else:
            new.append(line)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="other", coverage=cov, wall_s=round(time.time() - t, 2), violations=len(new))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    if new:
        rep = os.path.join(VERIF, "evidence", prop + ".report.txt")
        open(rep, "w").write("\n".join(new) + "\n")
        for l in new[:40]:
            print(l)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("%s holds: %s" % (prop, {k: v for k, v in cov.items() if isinstance(v, int)}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
