"""C03, C04, C05, C06: memory, resources and failures of all programs."""
import ir, mon, simjobs


def jobs(props, only=None):
    """Jobs with the monitors of the given properties ({"null": id, ...} of MemMon; "fail": id)."""
    mm = {k: v for k, v in props.items() if k != "fail"}
    js = []

    def mk(extra, bops=None):
        def f():
            ms = [mon.Harness()] + [getattr(mon, x)() for x in extra] + [mon.MemMon(mm, bops=bops)]
            if "fail" in props:
                ms.append(mon.FailMon(props["fail"]))
            if "null" in props:
                ms.append(mon.Ignored(props["null"]))
            return ms
        return f
    for p in ir.PROGRAMS:
        js.append(("sim_driver", p, mk(["CodecContract"]), {}))
    js.append(("mex_driver", "loadsrf", mk(["Mex"]), {}))
    for p in reversed(ir.PROGRAMS):
        js.append(("codec_driver", p, mk([], (1,)), {}))
    js.append(("main_driver", ir.PROGRAMS[0], mk(["SimContract"]), {}))
    return js


def run(props, prop, need):
    return simjobs.summary(simjobs.run(jobs(props)), prop, need)
