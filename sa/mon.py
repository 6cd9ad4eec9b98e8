"""Monitors shared by the checks."""
from expr import *
from sem import Monitor, Stop, Obj
import ext


class MemMon(Monitor):
    """Null dereferences, lifetime errors, leaks and bounds."""

    def __init__(self, props=None, bounds="w", bops=None):
        # props: {"null": id, "life": id, "leak": id, "bounds": id}
        self.p = props or {}
        self.bounds = bounds
        self.bops = bops          # operations whose table bounds are decided (None: all)
        self.n = dict(access=0, bounded=0, free=0)

    def rep(self, kind, ins, what, st):
        if self.p.get(kind):
            self.eng.report(self.p[kind], ins, what, st)

    def on_access(self, st, p, size, ins, write):
        self.n["access"] += 1
        if p is NULL:
            self.rep("null", ins, "null pointer dereferenced", st)
            return
        if isinstance(p, Ptr):
            o = st.mem.get(p.obj)
            if o is None or o.status == "freed":
                self.rep("life", ins, "memory used after it was released", st)
                return
            if self.p.get("bounds") and not st.g.get("rec") and (self.bops is None or st.g.get("op") in self.bops) and (write or self.bounds == "rw") and o.kind != "const":
                self.n["bounded"] += 1
                F = st.facts
                lo, hi = ZERO, o.size
                if p.rng is not None:
                    lo, hi = P(p.rng[0]), P(p.rng[1])
                if not F.ge(p.off - lo):
                    self.rep("bounds", ins, "%s may start before the buffer" % ("write" if write else "read"), st)
                elif not F.ge(hi - p.off - size):
                    self.rep("bounds", ins, "%s may run past the end of the buffer" % ("write" if write else "read"), st)

    def on_leak(self, st, o, ins):
        self.rep("leak", o.site, {"heap": "memory block", "file": "file", "opq": "codec instance"}[o.kind] + " is lost without being released", st)

    def on_event(self, st, kind, ins, **kw):
        if kind == "free":
            self.n["free"] += 1
            p = kw["ptr"]
            if isinstance(p, Ptr):
                o = st.mem.get(p.obj)
                if o is None or o.status == "freed":
                    self.rep("life", ins, "memory released twice", st)
                    raise Stop()
                elif o.kind != "heap":
                    self.rep("life", ins, "released memory was not allocated", st)
                elif not st.facts.eq0(p.off):
                    self.rep("life", ins, "released pointer is not the start of the block", st)
        elif kind == "uaf":
            self.rep("life", ins, "resource used after it was released", st)
        elif kind == "dfree":
            self.rep("life", ins, "file closed twice", st)
        elif kind == "fclose" and kw.get("ok") is None and not isinstance(kw["ptr"], UPtr):
            self.rep("life", ins, "closed stream was not opened", st)


class Harness(Monitor):
    """The sa_* functions of the drivers."""
    OPS = {}

    def start(self, st):
        st.g["op"] = 0

    def call(self, st, name, args, ins):
        if not name.startswith("sa_"):
            return None
        eng = self.eng
        if name == "sa_ready":
            for m in eng.mons:
                m.on_event(st, "ready", ins, ptr=args[0])
            return [(st, None)]
        if name == "sa_norand":
            for m in eng.mons:
                m.on_event(st, "norand", ins, val=args[0])
            return [(st, None)]
        if name == "sa_nondet":
            r = fresh("nondet")
        elif name == "sa_double":
            r = fresh("double", False)
        elif name == "sa_begin":
            st.g["op"] = int(args[0].const)
            for m in eng.mons:
                m.on_event(st, "begin", ins, opn=st.g["op"])
            return [(st, None)]
        elif name == "sa_end":
            for m in eng.mons:
                m.on_event(st, "end", ins, opn=st.g["op"], rc=args[1])
            st.g["op"] = 0
            eng.collect(st)
            return [(st, None)]
        elif name == "sa_string":
            n = "ext:string"
            ln = fresh("len", True, {"min": 0})
            st.mem[n] = Obj(n, ln + 1, "ext", LogKey("ext"), texts=((ZERO, ln, ("any", "spf")),))
            r = Ptr(n)
        elif name == "sa_params":
            # a NUL terminated parameter string of at most SP_STR_MAX - 1 characters
            n = "ext:params"
            ln = fresh("len", True, {"min": 0, "max": eng.opt["param_max"] - 1})
            st.mem[n] = Obj(n, ln + 1, "ext", LogKey("ext"), texts=((ZERO, ln, ("any", "params")),))
            r = Ptr(n)
        elif name in ("sa_argv", "sa_outv"):
            n = "ext:" + name[3:]
            st.mem[n] = Obj(n, eng.as_num(args[0]) * 8, "ext", LogKey(name))
            r = Ptr(n)
        elif name in ("sa_info", "sa_vector"):
            n = "ext:" + name[3:]
            sz = 4 if name == "sa_info" else 8
            st.mem[n] = Obj(n, eng.as_num(args[0]) * sz, "ext", LogKey(name))
            r = Ptr(n)
        else:
            return None
        return [(st, r)]


class CodecContract(Monitor):
    """The simulator's view of a codec (interfaces/codec.h)."""

    def call(self, st, name, args, ins):
        eng = self.eng
        if name == "cdc_init":
            out = []
            f = st.copy()
            for m in eng.mons:
                m.on_event(f, "fail", ins, what="cdc_init")
            rc = fresh("rc")
            f.facts = f.facts.add(mk_cmp("ne", rc))
            eng.access(st, args[0], ONE, ins, False)
            if isinstance(args[0], Ptr) and args[0].obj in st.mem:
                for s in (st, f):
                    ext.text_at(eng, s, args[0])
            out.append((f, rc))
            p = eng.new_heap(st, ins, P(1), "opq")
            n, k = fresh("code_n", True, {"min": 1}), fresh("code_k", True, {"min": 0})
            n = n * 2           # all lengths are powers of two (checked for the codecs by their own checks)
            st.gn["code_n"], st.gn["code_k"] = n, k
            st.facts = st.facts._with(n - k)
            if eng.access(st, args[1], P(8), ins, True):
                eng.store(st, args[1], p, 8, ins)
            for m in eng.mons:
                m.on_event(st, "cdc_init", ins, ptr=p, param=args[0])
            out.append((st, ZERO))
            return out
        if name == "cdc_close":
            p = args[0]
            if p is NULL:
                return [(st, None)]
            self.use(st, p, ins)
            if isinstance(p, Ptr) and p.obj in st.mem:
                st.mem[p.obj] = st.mem[p.obj].but(status="freed")
            return [(st, None)]
        if name in ("cdc_get_n", "cdc_get_k"):
            self.use(st, args[0], ins)
            return [(st, st.gn["code_n" if name[-1] == "n" else "code_k"])]
        if name in ("cdc_set_sg", "cdc_set_csnrn"):
            self.use(st, args[0], ins)
            for m in eng.mons:
                m.on_event(st, name, ins, val=args[1])
            return [(st, None)]
        if name in ("enc_bpsk", "dec_bpsk"):
            self.use(st, args[0], ins)
            n, k = st.gn["code_n"], st.gn["code_k"]
            enc = name[0] == "e"
            rin, rout = (k * 4, n * 8) if enc else (n * 8, k * 4)
            ok = eng.access(st, args[1], rin, ins, False)
            ok2 = eng.access(st, args[2], rout, ins, True)
            f = st.copy()
            if ok2:
                for m in eng.mons:
                    m.on_event(st, "coded", ins, name=name, args=args)
                eng.havoc_range(f, args[2], rout, name)
                eng.havoc_range(st, args[2], rout, name)
            for m in eng.mons:
                m.on_event(f, "fail", ins, what=name)
            if enc:
                rc = fresh("rc")
                f.facts = f.facts.add(mk_cmp("ne", rc))
                outs = [(f, rc)]
                codes = (0,)
            else:
                outs = [(f, P(-1))]
                codes = (0, 1)
            for i, c in enumerate(codes):
                s = st.copy() if i < len(codes) - 1 else st
                for m in eng.mons:
                    m.on_event(s, name, ins, args=args, rc=c)
                outs.append((s, P(c)))
            return outs
        return None

    def use(self, st, p, ins):
        if p is NULL:
            self.eng.access(st, p, ONE, ins, False)
        if isinstance(p, Ptr):
            o = st.mem.get(p.obj)
            if o is None or o.status == "freed":
                for m in self.eng.mons:
                    m.on_event(st, "uaf", ins, ptr=p)
                raise Stop()


class Ignored(Monitor):
    """A constructor must not succeed with an allocation that failed (it is dereferenced by the next call)."""

    def __init__(self, prop):
        self.prop = prop

    def start(self, st):
        st.g["oom"] = None

    def on_event(self, st, kind, ins, **kw):
        if kind == "fail" and st.g.get("op") == 1 and kw["what"] in ("malloc", "calloc", "realloc"):
            if st.g.get("oom") is None:
                st.g["oom"] = self.eng.m.where(ins)
        elif kind == "end":
            if kw["opn"] == 1 and st.g.get("oom") and not st.facts.entails(mk_cmp("ne", kw["rc"])):
                self.eng.report(self.prop, None, "the allocation at %s may fail and the instance is used nevertheless" % st.g["oom"], st)
            st.g["oom"] = None


class Mex(Monitor):
    """Octave's array interface: arrays have the requested size, failures do not return."""

    def call(self, st, name, args, ins):
        eng = self.eng
        if name in ("mexErrMsgTxt", "mexErrMsgIdAndTxt", "mexError"):
            # leaves the function for good
            for o in list(st.mem.values()):
                if o.kind in ("heap", "file") and o.status == "live":
                    for m in eng.mons:
                        m.on_leak(st, o, ins)
            raise Stop()
        if name in ("mexPrintf", "mexWarnMsgTxt", "mexFunctionName"):
            return [(st, None if not ins.res else UPtr("name") if ins.ty[0] == "ptr" else fresh("rc"))]
        if not name.startswith("mx"):
            return None
        if name == "mxCreateDoubleMatrix":
            p = eng.new_heap(st, ins, eng.as_num(args[0]) * eng.as_num(args[1]) * 8, "mx")
            return [(st, p)]
        if name == "mxGetPr":
            return [(st, args[0])]
        if name == "mxCreateDoubleScalar":
            p = eng.new_heap(st, ins, P(8), "mx")
            for m in eng.mons:
                m.on_store(st, p, args[0], 8, ins)
            eng.store(st, p, args[0], 8, ins)
            return [(st, p)]
        if name in ("mxCreateStructMatrix", "mxCreateStructArray"):
            ext.ev(eng, st, "mxfields", ins, names=self.texts(st, args[-1], eng.as_num(args[-2]), ins))
        if name in ("mxSetFieldByNumber", "mxSetField"):
            f = eng.as_num(args[2]) if name == "mxSetFieldByNumber" else ext.literal(eng, st, args[2])
            f = f.decode("latin1") if isinstance(f, bytes) else int(f.const) if isinstance(f, Poly) and f.const is not None else None
            ext.ev(eng, st, "mxset", ins, field=f, val=args[3])
        if name == "mxArrayToString":
            n = "ext:string"
            ln = fresh("len", True, {"min": 0})
            st.mem[n] = Obj(n, ln + 1, "ext", LogKey("ext"), texts=((ZERO, ln, ("any", "spf")),))
            return [(st, Ptr(n))]
        if ins.res:
            return [(st, UPtr(name) if ins.ty[0] == "ptr" else fresh(name))]
        return [(st, None)]


    def texts(self, st, p, n, ins):
        """The constant strings of an array of pointers."""
        out = []
        for i in range(int(n.const) if n.const is not None and n.const < 100 and isinstance(p, Ptr) else 0):
            t = ext.literal(self.eng, st, self.eng.load(st, Ptr(p.obj, p.off + 8 * i, p.rng), ("ptr",), ins))
            out.append(t.decode("latin1") if t is not None else "?")
        return out


class SimContract(Monitor):
    """The main program's view of a simulator (interfaces/simul.h)."""

    def call(self, st, name, args, ins):
        eng = self.eng
        if name == "sim_init":
            f = st.copy()
            for m in eng.mons:
                m.on_event(f, "fail", ins, what=name)
            rc = fresh("rc")
            f.facts = f.facts.add(mk_cmp("ne", rc))
            p = eng.new_heap(st, ins, P(1), "opq")
            if eng.access(st, args[1], P(8), ins, True):
                eng.store(st, args[1], p, 8, ins)
            st.g["run"] = None
            return [(f, rc), (st, ZERO)]
        if name not in ("sim_run", "sim_save_res", "sim_state_str", "sim_cur_res_str", "sim_close"):
            return None
        p = args[0]
        if p is NULL:
            eng.access(st, p, ONE, ins, False)
        if isinstance(p, Ptr):
            o = st.mem.get(p.obj)
            if o is None or o.status == "freed":
                for m in eng.mons:
                    m.on_event(st, "uaf", ins, ptr=p)
                raise Stop()
        if name == "sim_close":
            if isinstance(p, Ptr):
                st.mem[p.obj] = st.mem[p.obj].but(status="freed")
            return [(st, None)]
        if name in ("sim_state_str", "sim_cur_res_str"):
            d = args[1]
            if isinstance(d, Ptr) and d.obj in st.mem:
                ln = fresh("len", True, {"min": 0})
                st.facts = st.facts._with(st.mem[d.obj].size - d.off - ln - 1)
                eng.havoc(st, d.obj, None, name)
                st.mem[d.obj] = st.mem[d.obj].but(texts=((d.off, ln, ("any", "state")),))
            return [(st, None)]
        out = []
        f = st.copy()
        if name == "sim_run":
            for m in eng.mons:
                m.on_event(f, "fail", ins, what=name)
            rc = fresh("rc")
            f.facts = f.facts._with(-rc - 1)
            out.append((f, rc))
            c = st.copy()
            rc = fresh("rc")
            c.facts = c.facts._with(rc - 1)
            c.g["run"], st.g["run"] = "partly", "done"
            c.g["saved"] = st.g["saved"] = None
            out.append((c, rc))
        else:
            f.g["saved"] = "failed"
            st.g["saved"] = "ok"
            rc = fresh("rc")
            f.facts = f.facts.add(mk_cmp("ne", rc))
            out.append((f, rc))
        out.append((st, ZERO))
        return out

    def on_event(self, st, kind, ins, **kw):
        if kind == "end" and kw["opn"] == 9:
            if (st.g.get("run"), st.g.get("saved")) != ("done", "ok") and not st.facts.entails(mk_cmp("ne", kw["rc"])):
                self.eng.report("C04", None, "the exit status may be zero although %s" % (
                    "the simulation was not completed" if st.g.get("run") != "done" else "the results were not saved"), st)


class FailMon(Monitor):
    """Pending failures must be reported by the operation in progress."""

    def __init__(self, prop):
        self.prop = prop
        self.n = dict(fail=0, ends=0)
        self.sites = set()

    def start(self, st):
        st.g["pend"] = None

    def pend(self, st, ins, what):
        self.n["fail"] += 1
        self.sites.add(self.eng.m.where(ins))
        if st.g.get("op") and st.g.get("pend") is None:
            st.g["pend"] = (what, self.eng.m.where(ins))

    def on_event(self, st, kind, ins, **kw):
        op = st.g.get("op")
        if op == 10:
            return
        if kind == "begin":
            st.g["pend"] = None
        elif kind == "fail":
            self.pend(st, ins, kw["what"])
        elif kind == "fopen":
            if not kw["ok"]:
                if kw["mode"] == "w" or op == 1:
                    self.pend(st, ins, "fopen")
                elif st.g.get("pend") and st.g["pend"][0] in ("malloc", "fread"):
                    st.g["pend"] = None          # the file turned out not to exist
        elif kind == "fread0":
            if op == 1:
                self.pend(st, ins, "fread")
            elif st.g.get("pend") and st.g["pend"][0] in ("malloc", "fread"):
                st.g["pend"] = None              # the file turned out to be empty
        elif kind == "fprintf":
            o = st.mem.get(kw["ptr"].obj)
            if o is not None and o.aux == ("w", "bad"):
                self.pend(st, ins, "write")
        elif kind == "fclose":
            if kw.get("ok") is False:
                self.pend(st, ins, "fclose")
        elif kind == "unreported":
            self.eng.report(self.prop, None, "%s fails at %s but its caller %s is not told" % (st.g["pend"] + (kw["what"],)), st)
        elif kind == "end":
            self.n["ends"] += 1
            pd = st.g.get("pend")
            if pd is not None:
                rc = kw["rc"]
                F = st.facts
                bad = mk_cmp("ne", rc) if kw["opn"] in (1, 3, 7, 9) else mk_cmp("ge", -rc - 1)
                if not F.entails(bad):
                    self.eng.report(self.prop, None, "%s fails at %s but the operation reports success" % pd, st)
            st.g["pend"] = None
