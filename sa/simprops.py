"""Checks of the simulator's own properties: the simulator of every program under its most general client."""
import ir, mon, simjobs, simmon


def run(name, prop, need, opts=None):
    def mk():
        return [mon.Harness(), mon.CodecContract(), getattr(simmon, name)(prop)]
    js = [("sim_driver", p, mk, dict(opts or {})) for p in ir.PROGRAMS]
    return simjobs.summary(simjobs.run(js), prop, need)
