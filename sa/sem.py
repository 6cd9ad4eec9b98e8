"""Disjunctive abstract interpreter over LLVM IR (trace partitioning by resource/ghost state, relational facts,
array segments).  Calls are interpreted in context; loops are solved by fixpoint iteration with joins, recursive
functions by outcome summaries.  No path is handed to a solver and nothing is executed."""
import sys, time
from expr import *
from facts import Facts
import ir
from ir import AnalysisBroken

sys.setrecursionlimit(20000)


class Obj:
    __slots__ = ("name", "size", "kind", "base", "log", "status", "site", "texts", "aux")

    def __init__(self, name, size, kind, base, log=(), status="live", site=None, texts=(), aux=None):
        self.name, self.size, self.kind, self.base, self.log, self.status = name, size, kind, base, log, status
        self.site, self.texts, self.aux = site, texts, aux

    def but(self, **kw):
        o = Obj(self.name, self.size, self.kind, self.base, self.log, self.status, self.site, self.texts, self.aux)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class State:
    __slots__ = ("frames", "mem", "facts", "g", "gn", "path", "stack")

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [dict(self.frames[-1])] if self.frames else []
        s.mem, s.facts, s.g, s.gn, s.path = dict(self.mem), self.facts, dict(self.g), dict(self.gn), self.path
        s.stack = self.stack
        return s

    def env(self):
        return self.frames[-1]


class Stop(Exception):
    """The current path ends here (an error was reported or exit() was called)."""


def rng_disjoint(a, b):
    return a is not None and b is not None and (a[1] <= b[0] or b[1] <= a[0])


def entry_level(e):
    lv = 0
    for x in e[1:]:
        if isinstance(x, (Poly, Bool, Ptr)):
            lv = max(lv, level_of(x))
        elif isinstance(x, LogKey):
            lv = max(lv, x.level)
        elif isinstance(x, tuple) and e[0] == "cp":
            lv = max(lv, max([entry_level(y) for y in x if isinstance(y, tuple)], default=0))
    return lv


class Interp:
    def __init__(self, mod, monitors=(), options=None):
        self.m = mod
        self.mons = list(monitors)
        self.opt = options or {}
        self.reports = {}          # (prop, where, what) -> detail
        self.obs = {}              # observations of the monitors: key -> set of items
        self.comes = {}            # symbol of a merge -> values it stands for
        self.sufkeys = {}
        self.uptrs = {}
        self.ren = {}              # symbols of earlier visits and their successors
        self.swvars = {}
        self.tabvars = {}
        self.warm = {}             # results of earlier visits of loops
        self.stats = dict(calls=0, blocks=0, states=0, loops=0, iters=0, forks=0)
        self.covered = set()       # functions interpreted
        self.live_cache = {}
        self.sites = {}
        self.rec = self.find_recursive()
        self.summ = {}
        self.deadline = None
        import ext
        self.ext = ext
        for mon in self.mons:
            mon.eng = self

    # ------------------------------------------------------------------ reporting
    def report(self, prop, ins, what, st=None):
        w = self.m.where(ins) if ins is not None else "?"
        k = (prop, w, what)
        if k not in self.reports:
            self.reports[k] = [self.m.where(c) for c in (st.stack if st is not None else ())]

    def note(self, key, item):
        """An observation; like a report it only counts if made in the final round of all enclosing loops."""
        self.obs.setdefault(key, set()).add(item)

    def begin_buffer(self):
        r = (self.reports, self.obs)
        self.reports, self.obs = {}, {}
        return r

    def end_buffer(self, saved):
        r = (self.reports, self.obs)
        self.reports, self.obs = saved
        return r

    def commit_buffer(self, r):
        for k, v in r[0].items():
            self.reports.setdefault(k, v)
        for k, v in r[1].items():
            self.obs.setdefault(k, set()).update(v)

    # ------------------------------------------------------------------ set up
    def initial(self):
        st = State()
        st.frames, st.mem, st.facts, st.g, st.gn, st.path, st.stack = [], {}, Facts(), {}, {}, (), ()
        for n, (ty, init, const, internal) in self.m.globals.items():
            if init is not None and init[0] == "zero":
                base = "zero"
            elif init is None:
                base = LogKey("ext:" + n)
            else:
                base = ("init", ty, init)
            st.mem["@" + n] = Obj("@" + n, P(self.m.types.size(ty)), "const" if const else "glob", base)
        for mon in self.mons:
            mon.start(st)
        return st

    def find_recursive(self):
        """Functions in call graph cycles."""
        calls = {}
        for n, f in self.m.funcs.items():
            calls[n] = {i.extra[1] for b in f.blocks.values() for i in b.ins if i.op == "call" and i.extra[0] == "g"}
        rec = {}
        for n in calls:
            seen, todo = set(), list(calls[n])
            while todo:
                x = todo.pop()
                if x in seen or x not in calls:
                    continue
                seen.add(x)
                todo += calls[x]
            if n in seen:
                rec[n] = seen
        return rec

    # ------------------------------------------------------------------ memory reads
    def suffix_key(self, log, base):
        k = (log, base if isinstance(base, (str, LogKey)) else id(base))
        r = self.sufkeys.get(k)
        if r is None:
            lv = max([entry_level(e) for e in log], default=0)
            if isinstance(base, LogKey):
                lv = max(lv, base.level)
            r = self.sufkeys[k] = LogKey("mem", level=lv)
        return r

    def unknown(self, key, off, size, ty):
        t = {"f": "f", "ptr": "p"}.get(ty[0], "i")
        a = mk_ld(key, off, size, t)
        if ty[0] == "ptr":
            u = self.uptrs.get(a)
            if u is None:
                u = self.uptrs[a] = UPtr(a)
            return u
        return var(a)

    def conv(self, v, ty):
        """A stored value read with type ty."""
        if ty[0] == "ptr":
            if isinstance(v, Poly):
                if v.const == 0:
                    return NULL
                return UPtr(v)
            return v
        if isinstance(v, (Ptr, UPtr, FnPtr, Undef)) or v is NULL:
            return fresh("punned", ty[0] != "f")
        if isinstance(v, Bool):
            return ind(v)
        return v

    def read_log(self, base, log, off, size, ty, rng, F, depth=0):
        for i, e in enumerate(log):
            k = e[0]
            if k == "w":
                eoff, esz, val, erng = e[1], e[2], e[3], e[4]
                d = off - eoff
                c = d.const
                if c is not None:
                    if c == 0 and esz == size:
                        return self.conv(val, ty)
                    if c >= esz or c <= -size:
                        continue
                    return self.unknown(self.suffix_key(log[i:], base), off, size, ty)
                if rng_disjoint(rng, erng):
                    continue
                if esz == size and F.eq0(d):
                    return self.conv(val, ty)
                if F.ge(d - esz) or F.ge(-d - size):
                    continue
                if esz == size and self.never_equal(F, d):
                    continue
                return self.unknown(self.suffix_key(log[i:], base), off, size, ty)
            if k == "seg":
                o0, D, esz, val, hi, erng, key = e[1:8]
                if rng_disjoint(rng, erng):
                    continue
                d = off - o0
                r = d.d.get((), 0) % D
                q = (d - r) * P(Fraction(1, D))
                if r != 0:
                    if q.isint() and r >= esz and r + size <= D:
                        continue
                    lo_end = o0 if D > 0 else o0 + hi * D
                    if F.ge(o0 - off - size) or F.ge(off - (o0 + hi * D)):
                        continue
                    return self.unknown(self.suffix_key(log[i:], base), off, size, ty)
                if q.isint() and esz == size:
                    if F.ge(q) and F.ge(hi - q - 1):
                        if val is None:
                            return self.unknown(key, off, size, ty)
                        return self.conv(subst_any(val, {IDX: q}), ty)
                    if F.ge(-q - 1) or F.ge(q - hi):
                        continue
                elif F.ge(o0 - off - size) or F.ge(off - (o0 + hi * D)):
                    continue
                return self.unknown(self.suffix_key(log[i:], base), off, size, ty)
            if k == "h":
                erng, key = e[1], e[2]
                if rng_disjoint(rng, erng):
                    continue
                c = off.const
                if c is not None and erng is not None and (c >= erng[1] or c + size <= erng[0]):
                    continue
                return self.unknown(key, off, size, ty)
            if k == "hr":           # havoc of [lo, hi)
                lo, hi, key = e[1], e[2], e[3]
                if F.ge(off - hi) or F.ge(lo - off - size):
                    continue
                return self.unknown(key, off, size, ty)
            if k == "z":            # zero fill of [lo, lo+n)
                lo, n = e[1], e[2]
                if F.ge(off - lo) and F.ge(lo + n - off - size):
                    return NULL if ty[0] == "ptr" else ZERO
                if F.ge(off - lo - n) or F.ge(lo - off - size):
                    continue
                return self.unknown(self.suffix_key(log[i:], base), off, size, ty)
            if k == "cp":
                lo, n, sbase, slog, soff = e[1], e[2], e[3], e[4], e[5]
                if rng_disjoint(rng, e[6]):
                    continue
                if F.ge(off - lo) and F.ge(lo + n - off - size):
                    if depth < 6:
                        return self.read_log(sbase, slog, off - lo + soff, size, ty, None, F, depth + 1)
                elif F.ge(off - lo - n) or F.ge(lo - off - size):
                    continue
                return self.unknown(self.suffix_key(log[i:], base), off, size, ty)
            raise AnalysisBroken("log entry " + k)
        if base == "zero":
            return NULL if ty[0] == "ptr" else ZERO
        if isinstance(base, LogKey):
            return self.unknown(base, off, size, ty)
        if base[0] == "init":
            return self.read_init(base[1], base[2], off, size, ty)
        raise AnalysisBroken("memory base %r" % (base,))

    def never_equal(self, F, d):
        return F.entails(mk_cmp("ne", d))

    def read_init(self, ty0, init, off, size, ty):
        c = off.const
        if c is None:
            return fresh("cg", ty[0] != "f")
        t, v, o = ty0, init, c
        while True:
            if v[0] == "zero":
                return NULL if ty[0] == "ptr" else ZERO
            if v[0] == "str":
                b = v[1]
                if size == 1 and 0 <= o < len(b):
                    return P(b[o] if b[o] < 128 else b[o] - 256)
                return fresh("cg")
            if t[0] == "arr" and v[0] == "agg":
                es = self.m.types.size(t[2])
                i = o // es
                if not 0 <= i < len(v[1]):
                    return fresh("cg", ty[0] != "f")
                v, t, o = v[1][i][1], t[2], o - i * es
                continue
            if t[0] in ("st", "lit") and v[0] == "agg":
                done = False
                for i in range(len(v[1]) - 1, -1, -1):
                    fo, ft = self.m.types.field_off(t, i)
                    if fo <= o:
                        v, t, o = v[1][i][1], ft, o - fo
                        done = True
                        break
                if done:
                    continue
            if o != 0:
                return fresh("cg", ty[0] != "f")
            return self.const(v)

    def const(self, x):
        k = x[0]
        if k == "c":
            if x[1] == ("i", 1):
                return TRUE if x[2] & 1 else FALSE
            return P(x[2])
        if k == "fc":
            return P(x[1]) if x[1] is not None and x[1] == x[1] and abs(x[1]) != float("inf") else fresh("fc", False)
        if k == "g":
            if x[1] in self.m.globals:
                return Ptr("@" + x[1])
            return FnPtr(x[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            return NULL if x[1][0] == "ptr" else ZERO
        if k == "gep":
            return self.gep(x[1], [(t, self.const(o)) for t, o in x[2]])
        if k == "cast":
            return self.const(x[3])
        raise AnalysisBroken("constant %r" % (x,))

    def gep(self, sty, ops):
        base = ops[0][1]
        if not isinstance(base, Ptr):
            return base if base is not NULL else UPtr("null+")
        off, rng = base.off, base.rng
        T = self.m.types
        i0 = self.as_int(ops[1][1])
        t = sty
        start = ZERO
        off = off + i0 * P(T.size(t))
        if rng is not None and i0.const != 0 and rng[1] - rng[0] <= 8:
            rng = None                    # a step away from a scalar field: strided access to an array of structures
        fixed = rng is not None
        rel = ZERO
        if i0.const != 0 and t[0] == "st":
            pass
        for ty, ix in ops[2:]:
            ix = self.as_int(ix)
            if t[0] in ("st", "lit"):
                fo, ft = T.field_off(t, ix.const)
                off = off + fo
                if not fixed:
                    c = off.const
                    if c is not None:
                        rng = (int(c), int(c) + T.size(ft))
                        if ft[0] not in ("st", "lit"):
                            fixed = True
                    else:
                        fixed = True
                t = ft
            elif t[0] in ("arr", "vec"):
                off = off + ix * P(T.size(t[2]))
                t = t[2]
                fixed = True
            else:
                raise AnalysisBroken("gep into %r" % (t,))
        return Ptr(base.obj, off, rng)

    def as_int(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Bool):
            return ind(v)
        return fresh("idx")

    # ------------------------------------------------------------------ memory writes
    def push(self, st, name, entry):
        o = st.mem[name]
        log = o.log
        if entry[0] == "w":
            off, sz = entry[1], entry[2]
            log = tuple(e for e in log if not (e[0] == "w" and e[2] == sz and e[1] == off))
        if entry[0] == "h" and entry[1] is None:
            log = ()
        elif entry[0] == "h":
            r = entry[1]
            log = tuple(e for e in log if not (e[0] == "w" and e[1].const is not None and r[0] <= e[1].const and e[1].const + e[2] <= r[1])
                        and not (e[0] == "h" and e[1] is not None and r[0] <= e[1][0] and e[1][1] <= r[1]))
        st.mem[name] = o.but(log=(entry,) + log)

    def store(self, st, p, v, size, ins, text_ok=False):
        o = st.mem[p.obj]
        if not text_ok and o.texts:
            self.touch_text(st, p, size, v)
        self.push(st, p.obj, ("w", p.off, size, v, p.rng))
        if size == 1 and isinstance(v, Poly) and v.const == 0 and o.kind in ("heap", "stack"):
            # a string starting at the beginning of the object now ends here at the latest
            if not any(t[0].const == 0 for t in st.mem[p.obj].texts) and st.facts.ge(p.off):
                if p.off.const == 0:
                    ln = ZERO
                else:
                    ln = fresh("len", True, {"min": 0})
                    st.facts = st.facts._with(p.off - ln)
                o = st.mem[p.obj]
                st.mem[p.obj] = o.but(texts=o.texts + ((ZERO, ln, ("any", next_serial())),))

    def touch_text(self, st, p, size, v):
        o = st.mem[p.obj]
        keep = []
        for (off, ln, val) in o.texts:
            d = p.off - off
            if st.facts.ge(d - ln - 1) or st.facts.ge(-d - size):
                keep.append((off, ln, val))
            elif size == 1 and isinstance(v, Poly) and v.const == 0 and st.facts.ge(d) and st.facts.ge(ln - d):
                keep.append((off, d, ("cut", val)))
        if len(keep) != len(o.texts) or tuple(keep) != o.texts:
            st.mem[p.obj] = o.but(texts=tuple(keep))

    def havoc(self, st, name, rng=None, desc="havoc"):
        o = st.mem[name]
        self.push(st, name, ("h", rng, LogKey(desc)))
        o = st.mem[name]
        if o.texts:
            st.mem[name] = o.but(texts=())

    def havoc_range(self, st, p, n, desc="havoc"):
        """Unknown content written to n bytes at p."""
        o = st.mem[p.obj]
        if o.texts:
            keep = tuple((off, ln, v) for off, ln, v in o.texts
                         if st.facts.ge(p.off - off - ln - 1) or st.facts.ge(off - p.off - n))
            o = o.but(texts=keep)
            st.mem[p.obj] = o
        if n.const is None and p.rng is not None and st.facts.ge(p.off - p.rng[0]) and st.facts.ge(p.rng[1] - p.off - n):
            self.push(st, p.obj, ("h", p.rng, LogKey(desc)))          # keeps its extent when joined
            return
        self.push(st, p.obj, ("hr", p.off, p.off + n, LogKey(desc)))

    # ------------------------------------------------------------------ accesses
    def access(self, st, ptr, size, ins, write):
        """Checks a dereference. Returns True if the access can be modelled."""
        for mon in self.mons:
            mon.on_access(st, ptr, size, ins, write)
        if ptr is NULL:
            raise Stop()
        if isinstance(ptr, (UPtr, FnPtr, Undef)) or isinstance(ptr, Poly):
            return False
        o = st.mem.get(ptr.obj)
        if o is None or o.status == "freed":
            raise Stop()
        return True

    def load(self, st, ptr, ty, ins):
        size = self.m.types.size(ty)
        if not self.access(st, ptr, P(size), ins, False):
            return self.unknown(LogKey("deref"), ZERO, size, ty)
        o = st.mem[ptr.obj]
        return self.read_log(o.base, o.log, ptr.off, size, ty, ptr.rng, st.facts)

    def peek(self, st, ptr, ty):
        """Value in memory without access checks."""
        o = st.mem[ptr.obj]
        return self.read_log(o.base, o.log, ptr.off, self.m.types.size(ty), ty, ptr.rng, st.facts)

    # ------------------------------------------------------------------ objects
    def new_heap(self, st, ins, size, kind="heap", base=None):
        fn = ins.fn.name
        site = "%s:%s.%d" % (kind, fn, self.site_no(ins))
        i = 0
        while "%s#%d" % (site, i) in st.mem:
            i += 1
        name = "%s#%d" % (site, i)
        st.mem[name] = Obj(name, size, kind, base or LogKey("undef:" + name), site=ins)
        return Ptr(name)

    def site_no(self, ins):
        f = ins.fn
        if f.name not in self.sites:
            n, d = 0, {}
            for b in f.rpo:
                for i in f.blocks[b].ins:
                    if i.op == "call":
                        d[id(i)] = n
                        n += 1
            self.sites[f.name] = d
        return self.sites[f.name].get(id(ins), 0)

    def roots(self, st):
        for fr in st.frames:
            for v in fr.values():
                yield v
        for n, o in st.mem.items():
            if o.kind in ("glob", "const", "stack", "ext"):
                for e in o.log:
                    if e[0] in ("w", "seg"):
                        yield e[3] if e[0] == "w" else e[4]

    def collect(self, st, ins=None):
        """Drops unreachable freed objects; reports unreachable live resources (leaks)."""
        heap = [n for n, o in st.mem.items() if o.kind in ("heap", "file", "opq")]
        if not heap:
            return
        seen, todo = set(), []
        for v in self.roots(st):
            if isinstance(v, Ptr) and v.obj not in seen:
                seen.add(v.obj)
                todo.append(v.obj)
        while todo:
            o = st.mem.get(todo.pop())
            if o is None or o.status == "freed":
                continue
            for e in o.log:
                vs = ()
                if e[0] == "w":
                    vs = (e[3],)
                elif e[0] == "seg":
                    vs = (e[4],)
                elif e[0] == "cp":
                    vs = tuple(x[3] for x in e[4] if x[0] == "w")
                for v in vs:
                    if isinstance(v, Ptr) and v.obj not in seen:
                        seen.add(v.obj)
                        todo.append(v.obj)
        for n in heap:
            if n not in seen:
                o = st.mem[n]
                if o.status == "live":
                    for mon in self.mons:
                        mon.on_leak(st, o, ins)
                del st.mem[n]

    # ------------------------------------------------------------------ values
    def val(self, st, x):
        if x[0] == "v":
            r = st.frames[-1].get(x[1])
            if r is None:
                return UNDEF
            return r
        return self.const(x)

    # ------------------------------------------------------------------ liveness
    def liveness(self, f):
        r = self.live_cache.get(f.name)
        if r is not None:
            return r
        use, deff, phi_use = {}, {}, {}

        def ops(i):
            out = []

            def w(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == "v" and isinstance(x[1], str):
                        out.append(x[1])
                    else:
                        for y in x:
                            w(y)
                elif isinstance(x, list):
                    for y in x:
                        w(y)
            if i.args:
                w(i.args)
            if i.op == "call":
                w(i.extra)
            return out
        for b in f.blocks.values():
            u, d = set(), set()
            for p in b.phis:
                d.add(p.res)
                for pr, o in p.extra.items():
                    if o[0] == "v":
                        phi_use.setdefault(pr, set()).add((b.name, o[1]))
            for i in b.ins:
                for o in ops(i):
                    if o not in d:
                        u.add(o)
                if i.res:
                    d.add(i.res)
            use[b.name], deff[b.name] = u, d
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                out = set()
                for s in f.blocks[b].succ:
                    out |= live[s] - {p.res for p in f.blocks[s].phis}
                out |= {v for (t, v) in phi_use.get(b, ())}
                n = use[b] | (out - deff[b])
                # phi results are live at block entry (after the phis) if used
                n |= {p.res for p in f.blocks[b].phis if p.res in use_all(f, b, use, out)}
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live_cache[f.name] = live
        return live

    # ------------------------------------------------------------------ running
    def call(self, st, fname, args, ins):
        """Interprets a defined function; returns [(state, return value)]."""
        f = self.m.funcs[fname]
        self.stats["calls"] += 1
        if ins is not None:
            st.stack = st.stack + (ins,)
        if len(st.frames) > 60:
            raise AnalysisBroken("call depth")
        self.covered.add(fname)
        st.frames = st.frames + [dict(zip([p[1] for p in f.params], args))]
        outs = []
        rets, _, _ = self.region(f, f.entry, [st], set(f.blocks), None)
        for s, rv in rets:
            # stack objects of this frame die
            pre = "stk:%s:%d:" % (fname, len(s.frames))
            for n in [n for n in s.mem if n.startswith(pre)]:
                del s.mem[n]
            s.frames = s.frames[:-1]
            s.frames = s.frames[:-1] + [dict(s.frames[-1])] if s.frames else []
            if ins is not None:
                s.stack = s.stack[:-1]
            outs.append((s, rv))
        return outs

    def region(self, f, entry, states, body, header):
        """Executes the blocks of body from entry. Returns (returns, back arrivals, exits [(target, state)])."""
        pend = {entry: list(states)}
        rets, backs, exits = [], [], []
        order = f.rpo
        pos = {b: i for i, b in enumerate(order)}

        def deliver(s, frm, to):
            if not self.phis(s, f, frm, to):
                return
            if to == header:
                backs.append(s)
            elif to in body:
                pend.setdefault(to, []).append(s)
            else:
                exits.append((to, s))
        for b in sorted(body, key=lambda x: pos.get(x, 10 ** 9)):
            ss = pend.pop(b, None)
            if not ss:
                continue
            blk = f.blocks[b]
            if blk.loop_head and b != header:
                r2, ex2 = self.loop(f, b, ss)
                rets += r2
                for to, s in ex2:
                    if to == header:
                        backs.append(s)
                    elif to in body:
                        pend.setdefault(to, []).append(s)
                    else:
                        exits.append((to, s))
                continue
            cap = self.opt.get("cap", 40)
            if len(ss) > cap:
                ss = self.merge_many(f, b, ss)
            for s in ss:
                self.block(f, blk, s, deliver, rets)
        return rets, backs, exits

    def phis(self, s, f, frm, to):
        ph = f.blocks[to].phis
        if ph:
            vs = [(p.res, self.val(s, p.extra[frm]) if frm in p.extra else UNDEF) for p in ph]
            env = s.frames[-1]
            for r, v in vs:
                env[r] = v
        return True

    def block(self, f, blk, st, deliver, rets, start=0):
        self.stats["blocks"] += 1
        if self.deadline and time.time() > self.deadline:
            raise AnalysisBroken("analysis time limit exceeded")
        work = [(st, start)]
        while work:
            st, i = work.pop()
            try:
                while i < len(blk.ins):
                    ins = blk.ins[i]
                    op_ = ins.op
                    if op_ == "br":
                        self.branch(f, blk, st, ins, deliver)
                        break
                    if op_ == "ret":
                        v = self.val(st, ins.args[0]) if ins.args else None
                        rets.append((st, v))
                        break
                    if op_ == "switch":
                        self.switch(f, blk, st, ins, deliver)
                        break
                    if op_ == "unreachable":
                        break
                    if op_ == "call":
                        outs = self.do_call(st, ins)
                        if outs is not None:
                            for s2, rv in outs:
                                if ins.res:
                                    s2.frames[-1][ins.res] = rv if rv is not None else UNDEF
                                work.append((s2, i + 1))
                            break
                        i += 1
                        continue
                    if op_ == "select":
                        c = self.boolval(st, self.val(st, ins.args[0]))
                        a, b = self.val(st, ins.args[1]), self.val(st, ins.args[2])
                        if ins.ty == ("i", 1) and isinstance(a, Bool) and isinstance(b, Bool):
                            if a == TRUE:
                                st.frames[-1][ins.res] = Bool("or", c, b) if c not in (TRUE, FALSE) else (TRUE if c == TRUE else b)
                            elif b == FALSE:
                                st.frames[-1][ins.res] = Bool("and", c, a) if c not in (TRUE, FALSE) else (a if c == TRUE else FALSE)
                            else:
                                st.frames[-1][ins.res] = Bool("or", Bool("and", c, a), Bool("and", c.neg(), b))
                            i += 1
                            continue
                        outs = self.assume2(st, c)
                        for s2, tv in outs:
                            s2.frames[-1][ins.res] = a if tv else b
                            work.append((s2, i + 1))
                        break
                    self.simple(st, ins)
                    i += 1
            except Stop:
                pass

    def boolval(self, st, v):
        if isinstance(v, Bool):
            return v
        if isinstance(v, Poly):
            return mk_cmp("ne", v)
        return Bool("nd", next_serial())

    def assume2(self, st, c):
        """[(state, truth)] of the feasible outcomes of a condition."""
        t = st.facts.add(c)
        n = st.facts.add(c.neg())
        out = []
        if t is not None and n is not None:
            s2 = st.copy()
            s2.facts = n
            if c.pred not in ("true", "false"):
                st.path = st.path + (c,)
                s2.path = s2.path + (c.neg(),)
            st.facts = t
            self.stats["forks"] += 1
            for mon in self.mons:
                mon.on_assume(st, c)
                mon.on_assume(s2, c.neg())
            return [(st, True), (s2, False)]
        if t is not None:
            st.facts = t
            for mon in self.mons:
                mon.on_decided(st, c)
            return [(st, True)]
        if n is not None:
            st.facts = n
            for mon in self.mons:
                mon.on_decided(st, c.neg())
            return [(st, False)]
        return []

    def branch(self, f, blk, st, ins, deliver):
        if len(ins.extra) == 1:
            deliver(st, blk.name, ins.extra[0])
            return
        c = self.boolval(st, self.val(st, ins.args[0]))
        for s, tv in self.assume2(st, c):
            deliver(s, blk.name, ins.extra[0] if tv else ins.extra[1])

    def switch(self, f, blk, st, ins, deliver):
        v = self.as_int(self.val(st, ins.args[0]))
        cur = st
        for cv, lab in ins.extra[1]:
            k = cv if isinstance(cv, int) else cv[2]
            rest = None
            for s, tv in self.assume2(cur, mk_cmp("eq", v - P(k))):
                if tv:
                    deliver(s, blk.name, lab)
                else:
                    rest = s
            if rest is None:
                return
            cur = rest
        deliver(cur, blk.name, ins.extra[0])

    # ------------------------------------------------------------------ simple instructions
    def simple(self, st, ins):
        op_ = ins.op
        env = st.frames[-1]
        if op_ == "load":
            env[ins.res] = self.load(st, self.val(st, ins.args[0]), ins.ty, ins)
        elif op_ == "store":
            v, p = self.val(st, ins.args[0]), self.val(st, ins.args[1])
            ty = ins.ty
            size = self.m.types.size(ty)
            if isinstance(v, Bool):
                v = ind(v)
            if v is UNDEF:
                v = fresh("undef", ty[0] != "f")
            for mon in self.mons:
                mon.on_store(st, p, v, size, ins)
            if self.access(st, p, P(size), ins, True):
                self.store(st, p, v, size, ins)
            else:
                self.wild_write(st, ins, p)
        elif op_ == "getelementptr":
            env[ins.res] = self.gep(ins.ty, [(t, self.val(st, o)) for t, o in ins.args])
        elif op_ == "alloca":
            n = "stk:%s:%d:%s" % (ins.fn.name, len(st.frames), ins.res)
            cnt = 1
            st.mem[n] = Obj(n, P(self.m.types.size(ins.ty)), "stack", LogKey("undef:" + n))
            env[ins.res] = Ptr(n)
        elif op_ in ("icmp", "fcmp"):
            env[ins.res] = self.compare(st, ins)
        elif op_ in ir.CASTS:
            env[ins.res] = self.cast(st, ins)
        elif op_ in ir.BIN:
            env[ins.res] = self.binop(st, ins)
        elif op_ == "fneg":
            env[ins.res] = -self.as_num(self.val(st, ins.args[0]), False)
        elif op_ == "freeze":
            env[ins.res] = self.val(st, ins.args[0])
        else:
            if ins.res:
                env[ins.res] = UPtr(op_) if ins.ty and ins.ty[0] == "ptr" else fresh(op_)

    def wild_write(self, st, ins, p):
        for mon in self.mons:
            mon.on_wild(st, ins, p)
        targets = self.opt.get("wild")
        if targets:
            for n in targets(self, st, ins):
                if n in st.mem:
                    self.havoc(st, n, None, "wild")

    def as_num(self, v, isint=True):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Bool):
            return ind(v)
        return fresh("num", isint)

    def compare(self, st, ins):
        a, b = self.val(st, ins.args[0]), self.val(st, ins.args[1])
        pr = ins.extra
        if ins.ty[0] == "ptr":
            eq = self.ptr_eq(st, a, b)
            if pr == "eq":
                return eq
            if pr == "ne":
                return eq.neg()
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                a, b = a.off, b.off
            else:
                return Bool("nd", next_serial())
        if ins.ty == ("i", 1):
            x, y = self.boolval(st, a), self.boolval(st, b)
            if y in (TRUE, FALSE):
                same = x if y == TRUE else x.neg()
                return same if pr == "eq" else same.neg()
            return mk_cmp("eq" if pr == "eq" else "ne", ind(x) - ind(y))
        isint = ins.op == "icmp"
        a, b = self.as_num(a, isint), self.as_num(b, isint)
        if ins.op == "fcmp":
            pr = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne", "olt": "slt", "ult": "slt", "ole": "sle", "ule": "sle",
                  "ogt": "sgt", "ugt": "sgt", "oge": "sge", "uge": "sge"}.get(pr)
            if pr is None:
                return Bool("nd", next_serial())
        if pr == "eq":
            return mk_cmp("eq", a - b)
        if pr == "ne":
            return mk_cmp("ne", a - b)
        if pr in ("slt", "ult"):
            return mk_cmp("gt", b - a)
        if pr in ("sgt", "ugt"):
            return mk_cmp("gt", a - b)
        if pr in ("sle", "ule"):
            return mk_cmp("ge", b - a)
        return mk_cmp("ge", a - b)

    def ptr_eq(self, st, a, b):
        if a is NULL and b is NULL:
            return TRUE
        if a is NULL:
            a, b = b, a
        if b is NULL:
            if isinstance(a, (Ptr, FnPtr)):
                return FALSE
            if isinstance(a, UPtr):
                return Bool("nd", ("null", a.id))
            return Bool("nd", next_serial())
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                return FALSE
            return mk_cmp("eq", a.off - b.off)
        return Bool("nd", next_serial())

    def cast(self, st, ins):
        v = self.val(st, ins.args[0])
        o = ins.op
        if o in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            return v
        if isinstance(v, Bool):
            if ins.ty == ("i", 1):
                return v
            r = ind(v)
            return -r if o == "sext" else r
        if isinstance(v, (Ptr, UPtr)) or v is NULL:
            return v
        if v is UNDEF:
            return fresh("undef", ins.ty[0] != "f")
        if o == "trunc" and ins.ty == ("i", 1):
            return mk_cmp("ne", op("and", v, ONE)) if v.const is None else (TRUE if v.const & 1 else FALSE)
        if o in ("sitofp", "uitofp"):
            if ins.extra == ("i", 32) and v.degree() >= 2 and not any(a.kind == "pow2" for a in v.atoms()):
                up = st.facts.lower(P(2 ** 31 - 1) - v)
                lo = st.facts.lower(v + P(2 ** 31))
                if not (up not in (None,) and (up == "inf" or up >= 0) and lo is not None and (lo == "inf" or lo >= 0)):
                    return op("wrap32", v)
            return v
        if o in ("fptosi", "fptoui"):
            if v.isint():
                return v
            c = v.const
            if c is not None:
                return P(int(c))
            r = op("fptosi", v)
            F = st.facts
            if F.ge(v):
                F = F._with(r)._with(v - r)._with(r - v + 1)
            for g in list(F.ges):
                if not g.isint() and (v - g).isint():
                    F = F._with(r - (v - g))
                elif not g.isint() and (v + g).isint():
                    F = F._with((v + g) - r)
            st.facts = F
            return r
        return v

    def binop(self, st, ins):
        a, b = self.val(st, ins.args[0]), self.val(st, ins.args[1])
        o = ins.op
        if ins.ty == ("i", 1):
            x, y = self.boolval(st, a), self.boolval(st, b)
            if o == "and":
                return Bool("and", x, y)
            if o == "or":
                return Bool("or", x, y)
            if o == "xor":
                if y == TRUE:
                    return x.neg()
                if x == TRUE:
                    return y.neg()
                return mk_cmp("ne", ind(x) - ind(y))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and o == "sub" and a.obj == b.obj:
            return a.off - b.off
        isf = ins.ty[0] == "f"
        a, b = self.as_num(a, not isf), self.as_num(b, not isf)
        if o in ("add", "fadd"):
            return a + b
        if o in ("sub", "fsub"):
            return a - b
        if o in ("mul", "fmul"):
            if len(a.d) * len(b.d) > 64:
                return op("mul", a, b, isint=not isf)
            return a * b
        if o == "fdiv":
            return frac(a, b)
        if o == "shl":
            return a * pow2(b) if (b.const is None or b.const < 200) else fresh("shl")
        if o in ("sdiv", "udiv", "ashr", "lshr"):
            d = b
            if o in ("ashr", "lshr"):
                if b.const is None:
                    return op(o, a, b)
                d = P(2 ** int(b.const))
            return self.div(st, a, d)
        if o in ("srem", "urem"):
            if a.const is not None and b.const:
                q = abs(a.const) // abs(b.const)
                return P(a.const - b.const * (q if (a.const < 0) == (b.const < 0) else -q))
            r = op("srem", a, b)
            if b.const and b.const > 0 and st.facts.ge(a):
                st.facts = st.facts._with(r)._with(b - 1 - r)
            return r
        if a.const is not None and b.const is not None:
            x, y = int(a.const), int(b.const)
            return P({"and": x & y, "or": x | y, "xor": x ^ y}[o])
        if o == "xor" and b.const == -1:
            return -a - 1
        if o == "xor" and self.is01(st, a) and self.is01(st, b):
            return a + b - P(2) * a * b
        if o == "or" and a.const == 0:
            return b
        if o == "or" and b.const == 0:
            return a
        r = op(o, a, b) if a.level() <= b.level() or True else None
        if o == "and" and b.const is not None and b.const >= 0:
            st.facts = st.facts._with(r)._with(b - r)
        return r

    def is01(self, st, p):
        return p.const in (0, 1) or (len(p.d) == 1 and all(a.kind == "ind" for a in p.atoms()) and list(p.d.values())[0] == 1)

    def div(self, st, a, d):
        c = d.const
        if c:
            if a.const is not None:
                q = abs(a.const) // abs(c)
                return P(q if (a.const < 0) == (c < 0) else -q)
            q = a * P(Fraction(1, int(c)))
            if all(isinstance(x, int) or x.denominator == 1 for x in q.d.values()):
                return q
            # 2^x / 2^c is exact if x is large enough
            if len(a.d) == 1:
                (m, co), = a.d.items()
                if len(m) == 1 and m[0][0].kind == "pow2" and m[0][1] == 1 and co > 0:
                    k = Fraction(int(c)) / co
                    if k.numerator & (k.numerator - 1) == 0 and k.denominator == 1:
                        if st.facts.ge(m[0][0].a[0] - P(k.numerator.bit_length() - 1)):
                            return q
            r = op("sdiv", a, d)
            if c > 0 and st.facts.ge(a):
                st.facts = st.facts._with(r)._with(a - r * d)._with(r * d + d - 1 - a)
            return r
        if a == d:
            return ONE
        return op("sdiv", a, d)

    # ------------------------------------------------------------------ calls
    def do_call(self, st, ins):
        """None: handled in place; otherwise [(state, value)]."""
        fop = ins.extra
        args = [self.val(st, o) for t, o in ins.args]
        if fop[0] != "g":
            fv = self.val(st, fop)
            if isinstance(fv, FnPtr):
                name = fv.name
            else:
                if ins.res:
                    st.frames[-1][ins.res] = UPtr("indirect") if ins.ty[0] == "ptr" else fresh("indirect")
                return None
        else:
            name = fop[1]
        for mon in self.mons:
            r = mon.call(st, name, args, ins)
            if r is not None:
                return r
        if name in self.m.funcs:
            if name in self.rec:
                return self.recursive(st, name, args, ins)
            outs = self.call(st, name, args, ins)
            for mon in self.mons:
                for s, rv in outs:
                    mon.on_return(s, name, args, rv, ins)
            return outs
        h = self.ext.TABLE.get(name)
        if h is None:
            if name.startswith("llvm."):
                h = self.ext.intrinsic(name)
            if h is None:
                h = self.ext.default
        return h(self, st, args, ins)

    def recursive(self, st, name, args, ins):
        import recur
        return recur.call(self, st, name, args, ins)

    # ------------------------------------------------------------------ loops and joins (see joins.py)
    def loop(self, f, h, states):
        import joins
        return joins.run_loop(self, f, h, states)

    def merge_many(self, f, b, states):
        import joins
        return joins.merge_states(self, f, b, states)


def use_all(f, b, use, out):
    return use[b] | out | _used_in(f.blocks[b])


def _used_in(blk):
    r = getattr(blk, "succ", None)
    s = set()

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "v" and isinstance(x[1], str):
                s.add(x[1])
            else:
                for y in x:
                    w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    for i in blk.ins:
        if i.args:
            w(i.args)
        if i.op == "call":
            w(i.extra)
    return s


class Monitor:
    """Base class of the property observers."""
    eng = None

    def start(self, st): pass
    def call(self, st, name, args, ins): return None
    def on_return(self, st, name, args, rv, ins): pass
    def on_access(self, st, ptr, size, ins, write): pass
    def on_store(self, st, p, v, size, ins): pass
    def on_copy(self, st, d, s, n, ins): return False
    def on_leak(self, st, obj, ins): pass
    def on_assume(self, st, c): pass
    def on_decided(self, st, c): pass
    def on_wild(self, st, ins, p): pass
    def on_arrival(self, st, f, h, back): pass
    def on_event(self, st, kind, ins, **kw): pass
