"""Runs of the abstract interpreter shared by the checks: which driver on which program with which monitors."""
import multiprocessing as mp, os, random, sys, time, traceback
import ir, sem, mon

HERE = os.path.dirname(os.path.abspath(__file__))
PARAM_MAX = 140000
LIMIT = 800


def harness(n):
    return os.path.join(HERE, "harness", n + ".c")


def param_max():
    """Longest parameter string a codec is given (SP_STR_MAX of the parser)."""
    import re
    for ln in open(os.path.join(ir.REPO, "common/spf_par.c")):
        m = re.match(r"#define\s+SP_STR_MAX\s+(\d+)", ln)
        if m:
            return int(m.group(1))
    return PARAM_MAX


JOBS = []


def job(i):
    drv, tgt, mk, opt = JOBS[i]
    t = time.time()
    random.seed(7)
    try:
        m = ir.load(tgt, extra_src=(harness(drv),))
        mons = mk()
        e = sem.Interp(m, mons, dict(dict(param_max=param_max(), write_faults=True), **opt))
        e.deadline = t + LIMIT
        sys.setrecursionlimit(20000)
        outs = e.call(e.initial(), "sa_driver", [], None)
        for o, _ in outs:
            e.collect(o)
        if "then" in opt:                  # a second run with what the first one found
            mons = opt["then"](mons)
            e = sem.Interp(ir.load(tgt, extra_src=(harness(drv),)), mons, dict(param_max=param_max(), write_faults=True))
            e.deadline = t + LIMIT
            outs = e.call(e.initial(), "sa_driver", [], None)
            for o, _ in outs:
                e.collect(o)
        res = {}
        for x in mons:
            for k, v in getattr(x, "n", {}).items():
                res[k] = res.get(k, 0) + v
            if hasattr(x, "finish"):
                x.finish()
        return dict(drv=drv, tgt=tgt, reports=list(e.reports.items()), n=res, covered=sorted(e.covered), outs=len(outs),
                    blocks=e.stats["blocks"], loops=e.stats["loops"], wall=round(time.time() - t, 1), obs={k: sorted(map(str, v)) for k, v in e.obs.items()},
                    unknown=sorted(e.opt.get("_unknown", ())))
    except ir.AnalysisBroken as x:
        return dict(drv=drv, tgt=tgt, broken="%s" % x)
    except BaseException:
        return dict(drv=drv, tgt=tgt, broken=traceback.format_exc()[-1500:])


def run(jobs):
    """jobs: [(driver, program, monitor factory, options)]"""
    global JOBS
    JOBS = jobs
    with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as p:
        rs = p.map(job, range(len(jobs)), chunksize=1)
    for r in rs:
        if "broken" in r:
            raise ir.AnalysisBroken("%s on %s: %s" % (r["drv"], r["tgt"], r["broken"]))
    return rs


def summary(rs, prop, need):
    """(violations, coverage)"""
    bad, seen = [], set()
    tot = {}
    cov = set()
    for r in rs:
        for k, v in r["n"].items():
            tot[k] = tot.get(k, 0) + v
        cov |= set(r["covered"])
        for (p, w, what), st in r["reports"]:
            if p != prop:
                continue
            t = "%s: %s%s" % (w, what, "".join(" <- " + x for x in reversed(st)))
            k = (w, what)
            if k not in seen:
                seen.add(k)
                bad.append((r["tgt"], t))
    for k in need:
        if not tot.get(k) and not bad:
            raise ir.AnalysisBroken("nothing to check: no %s instance found" % k)
    c = {k: v for k, v in tot.items()}
    c.update(functions=len(cov), function_names=sorted(cov), blocks_interpreted=sum(r["blocks"] for r in rs), loops_stabilised=sum(r["loops"] for r in rs),
             runs=["%s on %s: %d end states, %d blocks, %.0f s" % (r["drv"], r["tgt"], r["outs"], r["blocks"], r["wall"]) for r in rs])
    return bad, c
