"""Calls of recursive functions.

A recursive function without side effects is an unknown, deterministic function of its arguments.  Any other
recursive function is represented by a contract that is verified by induction on the depth of the recursion:
its body is interpreted once from a general state (arbitrary arguments, arbitrary content of the memory the cycle
may write) in which the inner calls obey the contract.  The contract: resources allocated inside are released
inside; if something failed inside, a nonzero value is returned.  Table bounds are not decided inside."""
from expr import *
from sem import Obj, Stop, LogKey
import ir

RES = ("malloc", "calloc", "realloc", "free", "fopen", "fclose", "strtok", "fread")


class Info:
    pass


def info(eng, name):
    r = getattr(eng, "recinfo", None)
    if r is None:
        r = eng.recinfo = {}
    if name in r:
        return r[name]
    x = Info()
    x.stores, x.loads, x.ext, x.globs, x.ptrstore = [], 0, set(), set(), False
    for fn in sorted(eng.rec[name]):
        f = eng.m.funcs[fn]
        local = set()
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "alloca":
                    local.add(i.res)
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "store":
                    t, p = i.ty, i.args[1]
                    if p[0] == "v" and p[1] in local:
                        continue
                    if p[0] == "g":
                        x.globs.add(p[1])
                    else:
                        x.stores.append(i)
                    if t[0] == "ptr":
                        x.ptrstore = True
                elif i.op == "load":
                    p = i.args[0]
                    if not (p[0] == "v" and p[1] in local):
                        x.loads += 1
                elif i.op == "call":
                    n = i.extra[1] if i.extra[0] == "g" else "?"
                    if n in eng.m.funcs and n in eng.rec[name]:
                        continue
                    if n.startswith("llvm.mem") or n in ("memcpy", "memset", "memmove"):
                        x.stores.append(i)
                    elif not n.startswith("llvm."):
                        x.ext.add(n)
    x.pure = not x.stores and not x.globs and not x.ext
    reach, todo = set(), list(x.ext)
    while todo:
        n = todo.pop()
        if n in reach:
            continue
        reach.add(n)
        for b in eng.m.funcs[n].blocks.values() if n in eng.m.funcs else ():
            todo += [i.extra[1] if i.extra[0] == "g" else "?" for i in b.ins if i.op == "call"]
    x.res = any(n in RES or n == "?" for n in reach)
    x.refs = set()
    for fn in eng.rec[name]:
        for b in eng.m.funcs[fn].blocks.values():
            for i in b.ins:
                _globals(i.args, x.refs)
    r[name] = x
    return x


def _globals(a, out):
    if isinstance(a, (tuple, list)):
        if len(a) == 2 and a[0] == "g" and isinstance(a[1], str):
            out.add(a[1])
        else:
            for y in a:
                _globals(y, out)


def modset(eng, name):
    """Objects the cycle may write, and those that may receive pointers: keys ('g', name) / ('s', fn, block, idx) / ('x', label)."""
    r = getattr(eng, "recmod", None)
    if r is None:
        r = eng.recmod = {}
    if name in r:
        return r[name]
    import pta
    p = getattr(eng, "pta_", None)
    if p is None:
        p = eng.pta_ = pta.PTA(eng.m, eng.opt.get("entry", "sa_driver"))
    w, wp = set(), set()
    for ctx, fn in list(p.inst):
        if fn not in eng.rec[name]:
            continue
        for b in eng.m.funcs[fn].blocks.values():
            for i in b.ins:
                for kind, ts, g in p.effects(ctx, fn, i):
                    if kind != "w":
                        continue
                    for t in ts:
                        o = t[0]
                        if o == "fn":
                            continue
                        while o[0] == "carve":
                            o = o[1]
                        k = ("g", o[1]) if o[0] == "glob" else ("s",) + tuple(o[2]) if o[0] in ("heap", "stack") else ("x", str(o[1]))
                        w.add(k)
                        if i.op != "store" or i.ty[0] == "ptr":
                            if i.op == "store" or g is None or "set" not in g:
                                wp.add(k)
    r[name] = (w, wp)
    return r[name]


def key_of(eng, n, o):
    if n.startswith("@"):
        return ("g", n[1:])
    if o.kind == "heap" and o.site is not None:
        return ("s", o.site.fn.name, o.site.bb.name, o.site.idx)
    if n.startswith("stk:"):
        q = n.split(":", 3)
        f = eng.m.funcs.get(q[1])
        for b in f.blocks.values() if f else ():
            for i in b.ins:
                if i.op == "alloca" and i.res == q[3]:
                    return ("s", q[1], i.bb.name, i.idx)
    if n.startswith("ext:"):
        return ("x", "sa_" + n[4:].split(":")[0])
    return None


def effects(eng, st, name, args):
    """The cycle may have written any object the points-to analysis attributes to it."""
    w, wp = modset(eng, name)
    for n in sorted(st.mem):
        o = st.mem[n]
        if o.kind in ("const", "file", "opq") or o.status == "freed":
            continue
        k = key_of(eng, n, o)
        if k is not None and k not in w:
            continue
        keep = [] if k is None or k in wp else [e for e in o.log if e[0] == "w" and (isinstance(e[3], (Ptr, UPtr)) or e[3] is NULL)]
        eng.havoc(st, n, None, "rec")
        if keep:
            st.mem[n] = st.mem[n].but(log=tuple(keep) + st.mem[n].log)


def call(eng, st, name, args, ins):
    x = info(eng, name)
    if x.pure:
        if not ins.res:
            return [(st, None)]
        if x.loads:
            return [(st, fresh(name, ins.ty[0] != "f"))]
        if all(isinstance(a, Poly) for a in args):
            return [(st, op("fn:" + name, *args))]
        return [(st, fresh(name, ins.ty[0] != "f"))]
    s = eng.summ.get(name)
    if s is None:
        s = eng.summ[name] = dict(fail=False, computing=False)
    if x.res and not s["computing"]:
        # from the state of this call, so that the contract covers every state the calls are made in
        s["computing"] = True
        try:
            body(eng, st, name, args, ins, x, s)
        finally:
            s["computing"] = False
    effects(eng, st, name, args)
    out = []
    if s["fail"]:
        f = st.copy()
        for m in eng.mons:
            m.on_event(f, "fail", ins, what=name)
        rc = fresh("rc")
        f.facts = f.facts.add(mk_cmp("ne", rc))
        out.append((f, rc))
    rv = None
    if ins.res:
        rv = UPtr("rec:" + name) if ins.ty[0] == "ptr" else fresh(name, ins.ty[0] != "f")
    return out + [(st, rv)]


def general(eng, st, name, args, x):
    g = st.copy()
    effects(eng, g, name, args)
    f = eng.m.funcs[name]
    ps = []
    for i, (p, a) in enumerate(zip(f.params, args)):
        if isinstance(a, (Ptr, UPtr)) or a is NULL:
            n = "ext:%s:%d" % (name, i)
            g.mem[n] = Obj(n, fresh("size", True, {"min": 1}), "ext", LogKey("rec"))
            ps.append(Ptr(n))
        else:
            ps.append(fresh("arg", p[0][0] != "f"))
    g.g["rec"] = 1
    g.g["pend"] = None
    return g, ps


def body(eng, st, name, args, ins, x, s):
    for rnd in range(3):
        g, ps = general(eng, st, name, args, x)
        own = set(g.mem)
        outs = eng.call(g, name, ps, ins)
        fail = False
        for o, rv in outs:
            # a call frame's own blocks must be gone
            for n, ob in list(o.mem.items()):
                if n not in own and ob.kind in ("heap", "file") and ob.status == "live":
                    if not (isinstance(rv, Ptr) and rv.obj == n):
                        for m in eng.mons:
                            m.on_leak(o, ob, ins)
            if o.g.get("pend"):
                fail = True
                bad = isinstance(rv, Poly) and o.facts.entails(mk_cmp("ne", rv))
                if not bad:
                    for m in eng.mons:
                        m.on_event(o, "unreported", ins, what=name)
        if fail == s["fail"]:
            return
        s["fail"] = fail
