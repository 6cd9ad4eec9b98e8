"""Joins and loop fixpoints.

States arriving at a loop header are partitioned by resource status, pointer shapes and discrete ghosts.  Within a
partition every numeric position (register, memory cell, object size, ghost) gets the strongest of: invariant, affine in
the iteration count, sum over the iterations, free symbol; facts are kept if the base arrivals and all inductive arrivals
entail them.  Arrays written at affine offsets become segments, other writes become unknown content.
"""
from fractions import Fraction
from expr import *
from facts import Facts, implicit
import sem
from ir import AnalysisBroken

MAX_ROUNDS = 40
MAX_CANDS = 90
MAX_SCAL = 80


# --------------------------------------------------------------------------- keys
def vshape(v):
    if isinstance(v, Ptr):
        return ("P", v.obj)
    if v is NULL:
        return "N"
    if isinstance(v, UPtr):
        return "U"
    if isinstance(v, FnPtr):
        return ("F", v.name)
    if v is UNDEF or v is None:
        return "?"
    return "#"


def switch_vars(eng, f):
    """Registers that select a switch target, directly or through phis."""
    r = eng.swvars.get(f.name)
    if r is None:
        r, phis = set(), {}
        for b in f.blocks.values():
            if b.ins[-1].op == "switch" and b.ins[-1].args[0][0] == "v":
                r.add(b.ins[-1].args[0][1])
            for ins in b.phis:
                phis[ins.res] = [x[1] for x in ins.extra.values() if x[0] == "v"]
        todo = list(r)
        while todo:
            for x in phis.get(todo.pop(), ()):
                if x not in r:
                    r.add(x)
                    todo.append(x)
        eng.swvars[f.name] = r
    return r


SMALL = 12


def table_vars(eng, f, h):
    """Counters of a loop that steps through a small constant number of positions (its iterations are kept apart)."""
    r = eng.tabvars.get((f.name, h))
    if r is None:
        r = set()
        body = f.loops.get(h, ())
        for ins in f.blocks[h].phis:
            ins_body = [x for frm, x in ins.extra.items() if frm in body]
            ins_out = [x for frm, x in ins.extra.items() if frm not in body]
            if not all(x[0] == "c" or x[0] == "zero" for x in ins_out):
                continue
            names = {ins.res}
            stepped = False
            for b in body:
                for k in f.blocks[b].ins:
                    if k.op in ("add", "sub") and k.args[0] == ("v", ins.res) and k.args[1][0] == "c":
                        stepped = stepped or ("v", k.res) in ins_body
                        names.add(k.res)
            for b in body if stepped else ():
                for k in f.blocks[b].ins:
                    if k.op == "icmp" and any(x[0] == "v" and x[1] in names and y[0] == "c" and 2 <= y[2] <= SMALL
                                              for x, y in ((k.args[0], k.args[1]), (k.args[1], k.args[0]))):
                        r.add(ins.res)
        eng.tabvars[(f.name, h)] = r
    return r


def key_of(eng, f, h, st):
    live = eng.liveness(f)[h]
    env = st.frames[-1]
    sw = switch_vars(eng, f)
    tv = table_vars(eng, f, h)
    es = tuple((v, env[v].const if (v in sw or v in tv and -1 <= (env[v].const or 0) <= SMALL + 1) and isinstance(env[v], Poly) and env[v].const is not None else vshape(env[v]))
               for v in sorted(live) if v in env)
    objs, cells = [], []
    for n in sorted(st.mem):
        o = st.mem[n]
        if o.kind in ("heap", "file", "opq"):
            objs.append((n, o.status, o.aux))
        for e in o.log:
            if e[0] == "w" and e[1].const is not None and isinstance(e[3], (Ptr, FnPtr)) or \
                    e[0] == "w" and e[1].const is not None and e[3] is NULL:
                cells.append((n, e[1].const, vshape(e[3])))
    cells.sort(key=str)
    g = tuple(sorted(((k, v) for k, v in st.g.items()), key=lambda t: str(t[0])))
    gs = tuple((k, vshape(v)) if isinstance(v, (Ptr, UPtr)) else (k, v) for k, v in g)
    split = ()
    for mon in eng.mons:
        sp = getattr(mon, "split", None)
        if sp:
            split += (sp(st, f, h),)
    return (es, tuple(objs), tuple(cells), gs, split)


# --------------------------------------------------------------------------- substitution in states
def sub_val(v, m):
    if isinstance(v, Poly):
        return subst(v, m)
    if isinstance(v, Bool):
        return v.subst(m)
    if isinstance(v, Ptr):
        o = subst(v.off, m)
        return v if o is v.off or o == v.off else Ptr(v.obj, o, v.rng)
    return v


def sub_entry(e, m):
    out, ch = [], False
    for x in e:
        if isinstance(x, (Poly, Bool, Ptr)):
            y = sub_val(x, m)
            if not (y is x or y == x):
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else e


def sub_state(st, m):
    """Applies an equality substitution to the top frame, memory, facts and ghosts."""
    env = st.frames[-1]
    st.frames = st.frames[:-1] + [{k: sub_val(v, m) for k, v in env.items()}]
    for n, o in list(st.mem.items()):
        log = tuple(sub_entry(e, m) for e in o.log)
        size = subst(o.size, m)
        texts = tuple((sub_val(a, m), sub_val(b, m), v) for a, b, v in o.texts)
        if any(x is not y for x, y in zip(log, o.log)) or size is not o.size or texts != o.texts:
            st.mem[n] = o.but(log=log, size=size, texts=texts)
    F = st.facts.mapped(m)
    st.facts = F
    st.gn = {k: sub_val(v, m) for k, v in st.gn.items()}
    st.g = {k: sub_val(v, m) for k, v in st.g.items()}


def solve_exit(st, kappa):
    """If the facts give the iteration count exactly, substitutes it."""
    a = next(iter(kappa.atoms()))
    mono = ((a, 1),)
    sums = {x for f in st.facts.ges for x in f.atoms() if x.kind == "sum"}
    for v in list(st.frames[-1].values()) + list(st.gn.values()):
        if isinstance(v, Poly):
            sums |= {x for x in v.atoms() if x.kind == "sum"}
    for x in sums:
        if x.a[2] == kappa:
            for q in implicit(((x, 1),)):
                st.facts = st.facts._with(q)
    for f in list(st.facts.ges):
        c = f.d.get(mono)
        if c is None or c not in (1, -1):
            continue
        rest = Poly({m: x for m, x in f.d.items() if m != mono})
        if a in deep_atoms(rest):
            continue
        if st.facts.ge(-f):
            r = rest * P(-1 if c == 1 else 1)
            if not r.isint():
                continue
            sub_state(st, {a: r})
            return True
    return False


# --------------------------------------------------------------------------- helpers
def tree(items):
    """items: [(path, value)]; merges values by the branch conditions that separate them (None: impossible)."""
    v0 = items[0][1]
    if all(v == v0 for p, v in items):
        return v0
    i = 0
    while True:
        if any(len(p) <= i for p, v in items):
            return None
        if all(p[i] == items[0][0][i] for p, v in items):
            i += 1
            continue
        break
    c = items[0][0][i]
    nc = c.neg()
    A = [(p, v) for p, v in items if p[i] == c]
    B = [(p, v) for p, v in items if p[i] == nc]
    if len(A) + len(B) != len(items):
        return None
    x, y = tree(A), tree(B)
    if x is None or y is None:
        return None
    k = ind(c)
    return k * x + (ONE - k) * y


def resolve(p, F, depth=0):
    """Replaces indicator atoms decided by the facts."""
    m = {}
    for a in p.atoms():
        if a.kind == "ind":
            if F.entails(a.a[0]):
                m[a] = ONE
            elif F.entails(a.a[0].neg()):
                m[a] = ZERO
    return subst(p, m) if m else p


def num(v):
    if isinstance(v, Bool):
        return ind(v)
    return v


class Part:
    def __init__(self, eng, f, h, key, serial, is_loop):
        self.eng, self.f, self.h, self.key, self.serial, self.is_loop = eng, f, h, key, serial, is_loop
        self.edges = {}                  # source -> list of states
        self.kappa = fresh("k_%s_%s" % (f.name, h), True, {"min": 0}) if is_loop else None
        self.katom = next(iter(self.kappa.atoms())) if is_loop else None
        self.bsym = {}                   # pos -> symbol (Poly)
        self.modes = {}                  # pos -> mode
        self.reseed = set()
        self.tpos = {}                   # object -> offsets of further texts
        self.tries = {}
        self.forced = set()              # positions whose base is a symbol
        self.mem = {}                    # obj -> dict(scal, seg, hav, base)
        self.keys = {}
        self.cands = {}                  # fact -> alive
        self.uptr = {}
        self.sig = None
        self.H = None
        self.result = None
        self.inds = []
        self.rounds = 0
        self.unstable = False
        self.bvals = {}
        self.prev, self.tested, self.seeding = [], set(), False
        self.warm = set()                # positions whose mode was taken over from an earlier visit

    # -------------------------------------------------------------- earlier visits
    def memo(self):
        """What a stable partition found out, as a starting point for later visits of the same loop."""
        return dict(kappa=self.katom, bsym=dict(self.bsym), modes=dict(self.modes), cands=dict(self.cands),
                    mem={n: dict(scal=dict(d["scal"]), seg={k: dict(v) for k, v in d["seg"].items()}, hav=set(d["hav"]),
                                 base=d["base"], dead=set(d.get("dead", ()))) for n, d in self.mem.items()},
                    uptr=set(self.uptr), tpos={n: list(v) for n, v in self.tpos.items()})

    def start_from(self, w, st):
        """Starts from the result of an earlier visit; everything is verified again by check() and join_facts()."""
        self.tpos = {n: list(v) for n, v in w["tpos"].items()}
        alive = state_atoms(st)
        ren = self.eng.ren
        m = {w["kappa"]: self.kappa}
        ren[w["kappa"]] = self.katom

        def R(x, own=False):
            """x in the current symbols; None if it mentions symbols that no longer exist."""
            if not isinstance(x, Poly):
                return x
            mm = {}
            for a in deep_atoms(x):
                if a in m:
                    if not own:
                        return None
                    mm[a] = m[a]
                elif a not in alive and a is not IDX and a.kind == "sym":
                    b = a
                    while b in ren:
                        b = ren[b]
                    if b not in alive:
                        return None
                    ren[a] = b
                    mm[a] = var(b)
            return subst(x, mm) if mm else x

        def RP(pos):
            if pos[0] in ("m", "t"):
                o = R(pos[2])
                return None if o is None else pos if o is pos[2] else pos[:2] + (o,) + pos[3:]
            return pos
        for pos, s in w["bsym"].items():
            pos = RP(pos)
            if pos is None:
                continue
            n = self.sym(pos, s.isint())
            m[next(iter(s.atoms()))] = n
            ren[next(iter(s.atoms()))] = next(iter(n.atoms()))
        for pos, md in w["modes"].items():
            pos = RP(pos)
            if pos is None or (md[0] == "x" and pos[0] == "t"):
                continue
            if md[0] in ("aff", "sum"):
                b = R(md[1])
                if b is None:
                    continue
                md = (md[0], b)
            self.modes[pos] = md
            if md[0] != "x":
                self.warm.add(pos)
        for n, d in w["mem"].items():
            if n not in st.mem:
                continue
            e = self.md(n)
            for k, v in d["scal"].items():
                o = R(k[0])
                if o is not None:
                    e["scal"][(o,) + k[1:]] = v
            for k, v in d["seg"].items():
                o, val = R(k[0]), R(v["val"])
                if o is not None and (v["val"] is None or val is not None):
                    e["seg"][(o,) + k[1:]] = dict(v, val=val)
            for h in d["hav"]:
                h = tuple((R(x), isinstance(x, Poly)) for x in h)
                if all(x is not None or not p for x, p in h):
                    e["hav"].add(tuple(x for x, p in h))
            e["base"] = d["base"]
            e["dead"] = {(R(k[0]),) + k[1:] for k in d["dead"] if R(k[0]) is not None}
        at = {next(iter(s.atoms())): pos for pos, s in w["bsym"].items()}
        for q0, v in w["cands"].items():
            q = R(q0, True)
            if q is None and v:
                # a relation to something that is no longer known: look for its counterpart
                self.reseed.update(RP(at[a]) for a in q0.atoms() if a in at)
            if q is not None and q.const is None:
                self.cands[q] = v
                self.tested.add(q)

    # -------------------------------------------------------------- positions
    def logkey(self, what):
        k = self.keys.get(what)
        if k is None:
            k = self.keys[what] = LogKey("join:" + str(what[0]))
        return k

    def sym(self, pos, isint):
        s = self.bsym.get(pos)
        if s is None:
            s = self.bsym[pos] = fresh("%s" % (pos[1] if pos[0] in "en" else pos[0]), isint)
        elif isint is False and s.isint():
            s = self.bsym[pos] = fresh("%s" % (pos[1] if pos[0] in "en" else pos[0]), False)
        return s

    def invariant(self, v):
        return level_of(v) < self.serial

    def comes(self, s, vals):
        """Remember what a symbol of a merge stands for."""
        c = self.eng.comes.setdefault(next(iter(s.atoms())), set())
        if len(c) < 40:
            c.update(vals)

    def numeric(self, pos, vals):
        """Header value of a numeric position with the given base values; records the substitutions."""
        vals = [num(v) if isinstance(v, Bool) else v for v in vals]
        vals = [v if isinstance(v, Poly) else fresh("u") for v in vals]
        isint = all(v.isint() for v in vals)
        mode = self.modes.get(pos, ("inv",))
        v0 = vals[0]
        same = pos not in self.forced and self.invariant(v0) and all(v == v0 for v in vals[1:])
        if mode[0] == "sym":
            if not all(v.isint() for v in self.indvals.get(pos, ())):
                isint = False
            s = self.sym(pos, isint)
            for m, v in zip(self.bmaps, vals):
                m[next(iter(s.atoms()))] = v
            self.comes(s, vals)
            self.bvals[pos] = vals
            return s
        if same:
            b = v0
        else:
            if mode[0] == "inv" or True:
                self.forced.add(pos)
            b = self.sym(pos, isint)
            for m, v in zip(self.bmaps, vals):
                m[next(iter(b.atoms()))] = v
            self.comes(b, vals)
            self.bvals[pos] = vals
        if mode[0] == "aff":
            return b + mode[1] * self.kappa
        if mode[0] == "sum":
            return b + mk_sum(mode[1], self.kappa)
        return b

    def join_value(self, pos, vals):
        v0 = vals[0]
        if isinstance(v0, (Poly, Bool)) and all(isinstance(v, (Poly, Bool)) for v in vals):
            if isinstance(v0, Bool) and self.modes.get(pos) is None and pos not in self.forced and self.invariant(v0) \
                    and all(isinstance(v, Bool) and v == v0 for v in vals):
                self.hpos[pos] = v0
                return v0
            r = self.numeric(pos, vals)
            self.hpos[pos] = r
            return r
        if isinstance(v0, Ptr) and all(isinstance(v, Ptr) and v.obj == v0.obj for v in vals):
            r = self.numeric(pos, [v.off for v in vals])
            self.hpos[pos] = r
            rng = v0.rng if all(v.rng == v0.rng for v in vals) else None
            for v in self.indraw.get(pos, ()):
                if isinstance(v, Ptr) and v.rng != rng:
                    rng = None
            return Ptr(v0.obj, r, rng)
        if all(v is NULL for v in vals):
            return NULL
        if isinstance(v0, FnPtr) and all(v == v0 for v in vals):
            return v0
        if all(v is UNDEF for v in vals):
            return UNDEF
        if any(isinstance(v, (Ptr, UPtr, FnPtr)) or v is NULL for v in vals):
            if isinstance(v0, UPtr) and all(v is v0 for v in vals) and self.invariant_uptr(v0) and pos not in self.forced:
                self.hpos[pos] = v0
                return v0
            self.forced.add(pos)
            u = self.uptr.get(pos)
            if u is None:
                u = self.uptr[pos] = UPtr(("join", pos))
            return u
        r = self.numeric(pos, [v if isinstance(v, (Poly, Bool)) else fresh("u") for v in vals])
        self.hpos[pos] = r
        return r

    def invariant_uptr(self, u):
        return u.id < self.serial

    # -------------------------------------------------------------- header state
    def build(self):
        S = [s for e in self.edges.values() for s in e]
        self.S = S
        self.bmaps = [({self.katom: ZERO} if self.is_loop else {}) for _ in S]
        self.hpos, self.bvals = {}, {}
        self.indvals = getattr(self, "indvals", {})
        self.indraw = getattr(self, "indraw", {})
        s0 = S[0]
        H = sem.State()
        H.stack, H.path = s0.stack, ()
        H.g = dict(s0.g)
        for k, v in H.g.items():
            if isinstance(v, Ptr):
                H.g[k] = self.join_value(("g", k), [s.g.get(k, UNDEF) for s in S])
        live = self.eng.liveness(self.f)[self.h]
        env = {}
        for v in sorted(live):
            if all(v in s.frames[-1] for s in S):
                env[v] = self.join_value(("e", v), [s.frames[-1][v] for s in S])
        H.frames = s0.frames[:-1] + [env]
        self.H_env, self.etext = env, {}
        H.gn = {}
        for n in s0.gn:
            if all(n in s.gn for s in S):
                H.gn[n] = self.join_value(("n", n), [s.gn[n] for s in S])
        H.mem = {}
        for n in s0.mem:
            if all(n in s.mem for s in S):
                H.mem[n] = self.join_obj(n, [s.mem[n] for s in S])
        H.facts = self.join_facts()
        if not self.is_loop:
            p0 = S[0].path
            k = 0
            while all(len(s.path) > k for s in S) and all(s.path[k] == p0[k] for s in S):
                k += 1
            H.path = p0[:k]
        self.H = H
        return H

    def signature(self):
        H = self.H
        return (tuple(sorted(((str(k), v) for k, v in self.hpos.items()), key=lambda t: t[0])), H.facts.key(),
                tuple((n, tuple(sorted(map(str, d["scal"]))), tuple(sorted(map(str, d["seg"]))), tuple(sorted(map(str, d["hav"]))), d["base"])
                      for n, d in sorted(self.mem.items())),
                tuple((n, o.log) for n, o in sorted(H.mem.items()) if o.log),
                frozenset(map(str, self.uptr)), frozenset((str(k), v) for k, v in self.modes.items()),
                tuple((n, tuple(map(str, v))) for n, v in sorted(self.tpos.items())))

    # -------------------------------------------------------------- objects
    def md(self, n):
        d = self.mem.get(n)
        if d is None:
            d = self.mem[n] = dict(scal={}, seg={}, hav=set(), base=False)
        return d

    def join_obj(self, n, objs):
        o0 = objs[0]
        known = self.mem.get(n)
        if known is None and all(o is o0 for o in objs) and all(self.inv_entry(e) for e in o0.log) \
                and self.inv_base(o0.base) and self.invariant(o0.size) and self.modes.get(("s", n)) is None:
            if all(self.invariant(a) and self.invariant(b) for a, b, v in o0.texts) and n not in self.tpos:
                if all(self.modes.get(("t", n, a)) is None for a, b, v in o0.texts):
                    for a, b, v in o0.texts:
                        self.hpos[("t", n, a)] = b
                    self.R_cache = None
                    return self.text_drop(n, o0)
        size = self.join_value(("s", n), [o.size for o in objs])
        # base
        base = o0.base
        md = None
        if not all(same_base(o.base, base) for o in objs) or not self.inv_base(base):
            md = self.md(n)
            md["base"] = True
        if self.mem.get(n) and self.mem[n]["base"]:
            base = self.logkey(("base", n))
        # common entries
        common = []
        if all(o.log is o0.log for o in objs):
            common = [e for e in o0.log if self.inv_entry(e)]
            other = [[e for e in o0.log if not self.inv_entry(e)]] * len(objs)
        else:
            sets = [set(map(id, o.log)) for o in objs]
            common = [e for e in o0.log if self.inv_entry(e) and all(id(e) in s for s in sets[1:])]
            cid = set(map(id, common))
            if any(len(o.log) != len(common) for o in objs):
                # equal entries with different identity
                sets = [set(o.log) for o in objs]
                common = [e for e in o0.log if self.inv_entry(e) and all(e in s for s in sets[1:])]
                # keep the order consistent in all logs
                cs = set(common)
                for o in objs[1:]:
                    seq = [e for e in o.log if e in cs]
                    if seq != [e for e in common if e in cs]:
                        pos = {e: i for i, e in enumerate(seq)}
                        last, keep = -1, []
                        for e in common:
                            if e in cs and pos[e] > last:
                                keep.append(e)
                                last = pos[e]
                        cs = set(keep)
                common = [e for e in common if e in cs]
                other = [[e for e in o.log if e not in cs] for o in objs]
            else:
                other = [[e for e in o.log if id(e) not in cid] for o in objs]
        for ot in other:
            for e in ot:
                self.record(n, e)
        md = self.mem.get(n)
        front = []
        if md:
            if ("h", None) in md["hav"]:
                common = []
            for (off, sz), (rng, kind) in md["scal"].items():
                vals = []
                for o, s in zip(objs, self.S):
                    vals.append(self.eng.read_log(o.base, o.log, off, sz, kind, rng, s.facts))
                v = self.join_value(("m", n, off, sz), vals)
                if isinstance(v, Bool):
                    v = ind(v)
                front.append(("w", off, sz, v, rng))
            for (o0_, D, esz), sg in md["seg"].items():
                front.append(("seg", o0_, D, esz, sg["val"], self.kappa, sg["rng"], self.logkey(("seg", n, o0_, D))))
            for hv in md["hav"]:
                if hv[0] == "h":
                    front.append(("h", hv[1], self.logkey(("h", n, hv))))
                elif hv[0] == "hr":
                    front.append(("hr", hv[1], hv[2], self.logkey(("hr", n, hv))))
                else:
                    front.append(("seg", hv[1], hv[2], hv[3], None, hv[4], hv[5], self.logkey(("sg", n, hv))))
        # texts
        texts = []
        cand = [t[0] for t in o0.texts]
        for a in self.tpos.get(n, ()):
            if a not in cand:
                cand.append(a)
        if n not in self.tpos and any(o is not o0 for o in objs):
            for o in objs[1:]:
                for t in o.texts:
                    if t[0].const is not None and t[0] not in cand:
                        cand.append(t[0])
        for a in cand:
            if not self.invariant(a) or self.etext_at(n, a):
                continue
            ls, vs = [], []
            for o, s in zip(objs, self.S):
                t = self.text_at(o, s, a)
                if t is None:
                    break
                ls.append(t[0])
                vs.append(t[1])
            if len(ls) == len(objs) and ("t", n, a, "x") not in self.modes:
                ln = self.join_value(("t", n, a), ls)
                same = all(x == vs[0] for x in vs) and ("t", n, a, "v") not in self.modes
                texts.append((a, ln, vs[0] if same else ("any", n, str(a), self.serial)))
        # texts at the position of a register
        done = set()
        for (a, b, v) in o0.texts:
            for x in self.regs_at(n, a):
                if x in done or ("t", n, ("@", x), "x") in self.modes:
                    continue
                h = self.H_env.get(x)
                if not isinstance(h, Ptr) or h.obj != n or any(t[0] == h.off for t in texts):
                    continue
                ls = []
                for o, s in zip(objs, self.S):
                    p = s.frames[-1].get(x)
                    for (a2, b2, v2) in o.texts:
                        if isinstance(p, Ptr) and p.obj == n and a2 == p.off:
                            ls.append(b2)
                            break
                if len(ls) != len(objs):
                    continue
                done.add(x)
                ln = self.join_value(("t", n, ("@", x)), ls)
                texts.append((h.off, ln, ("any", n, x, self.serial)))
                self.etext[(n, h.off)] = x
        r = o0.but(size=size, base=base, log=tuple(front) + tuple(common), texts=tuple(texts))
        return r

    def text_at(self, o, st, a):
        """(length, content) of the text at an offset of an object; a leading NUL byte is an empty text."""
        for a2, b2, v2 in o.texts:
            if a2 == a:
                return (b2, v2)
        if a is not None and a.const is not None:
            v = self.eng.read_log(o.base, o.log, a, 1, ("i", 8), None, st.facts)
            if isinstance(v, Poly) and v.const == 0:
                return (ZERO, ("empty",))
        return None

    def regs_at(self, n, a):
        """Registers that point to offset a of an object in the first base state and vary in the loop."""
        if not self.is_loop:
            return []
        r = []
        for x, v in self.S[0].frames[-1].items():
            if isinstance(v, Ptr) and v.obj == n and v.off == a:
                h = self.H_env.get(x)
                if isinstance(h, Ptr) and h.off != a and h.obj == n:
                    r.append(x)
        return sorted(r)

    def etext_at(self, n, a):
        return bool(self.regs_at(n, a))

    def text_drop(self, n, o):
        if any(("t", n, a, "x") in self.modes or ("t", n, a, "v") in self.modes for a, b, v in o.texts):
            t = []
            for a, b, v in o.texts:
                if ("t", n, a, "x") in self.modes:
                    continue
                if ("t", n, a, "v") in self.modes:
                    v = ("any", n, str(a), self.serial)
                t.append((a, b, v))
            return o.but(texts=tuple(t))
        return o

    def inv_entry(self, e):
        return sem.entry_level(e) < self.serial and not (len(e) > 4 and isinstance(e[3] if e[0] == "w" else None, UPtr) and e[3].id >= self.serial)

    def inv_base(self, b):
        return not isinstance(b, LogKey) or b.level < self.serial

    def kind_of(self, v, size):
        if isinstance(v, (Ptr, UPtr, FnPtr)) or v is NULL:
            return ("ptr",)
        if isinstance(v, Poly) and not v.isint():
            return ("f", 64)
        if size == 8 and isinstance(v, Poly) and v.const is not None:
            return ("f", 64)
        return ("i", size * 8)

    def record(self, n, e):
        """A base or inductive entry that is not part of the common log."""
        md = self.md(n)
        k = e[0]
        n0 = (len(md["scal"]), len(md["hav"]))
        if k == "w" and self.invariant(e[1]):
            if len(md["scal"]) < MAX_SCAL:
                p = (e[1], e[2])
                kd = self.kind_of(e[3], e[2])
                old = md["scal"].get(p)
                if old is None:
                    md["scal"][p] = (e[4], kd)
                else:
                    if old[1] != kd and kd[0] == "f":
                        md["scal"][p] = (old[0], kd)
                return
            md["hav"].add(("h", None))
            return
        md["hav"].add(self.describe(e))

    def describe(self, e):
        k = e[0]
        if k == "w":
            return ("h", e[4])
        if k == "seg":
            if self.invariant(e[1]) and self.invariant(e[5]):
                return ("sg", e[1], e[2], e[3], e[5], e[6])
            return ("h", e[6])
        if k == "h":
            return ("h", e[1])
        if k == "hr":
            if self.invariant(e[1]) and self.invariant(e[2]):
                return ("hr", e[1], e[2])
            return ("h", None)
        if k in ("z", "cp"):
            if self.invariant(e[1]) and self.invariant(e[2]):
                return ("hr", e[1], e[1] + e[2])
            return ("h", e[6] if k == "cp" else None)
        raise AnalysisBroken("entry " + k)

    # -------------------------------------------------------------- facts
    def join_facts(self):
        S = self.S
        F0 = S[0].facts
        ges = {}
        inv = [f for f in F0.ges if f.level() < self.serial]
        for f in inv:
            if all(s.facts.ge(f) for s in S[1:]):
                ges[f] = None
        for s in S[1:]:
            for f in s.facts.ges:
                if f.level() < self.serial and f not in ges and f not in F0.ges and len(ges) < 120:
                    if all(t.facts.ge(f) for t in S if t is not s):
                        ges[f] = None
        nes = frozenset(p for p in F0.nes if p.level() < self.serial and all(s.facts.entails(mk_cmp("ne", p)) for s in S[1:]))
        bools = frozenset(b for b in F0.bools if b.level() < self.serial and not (b.pred in ("nd", "nnd") and self.ndlevel(b) >= self.serial)
                          and all(b in s.facts.bools or s.facts.entails(b) for s in S[1:]))
        # symbols
        self.seeding = True
        self.seed_candidates()
        self.seeding = False
        alive = [q for q, ok in self.cands.items() if ok]
        new = [q for q in alive if q not in self.tested]
        prev = [(with_facts(st.facts, new), st, vals) for st, vals in self.prev] if new else []
        for q in alive:
            for s, m in zip(S, self.bmaps):
                if not s.facts.ge(subst(q, m)):
                    self.cands[q] = False
                    break
            else:
                if q not in self.tested and not self.plausible(q, prev):
                    self.cands[q] = False
                if self.prev:
                    self.tested.add(q)
        for q, ok in self.cands.items():
            if ok:
                ges[q] = None
        return Facts(ges, nes, bools)

    def plausible(self, q, prev):
        """Does a new candidate hold at least in the latest inductive arrivals (given the other new ones)?"""
        if not prev:
            return True
        atpos = {next(iter(p.atoms())): pos for pos, p in self.bsym.items()}
        for F, st, vals in prev:
            m = {self.katom: self.kappa + 1}
            for a in q.atoms():
                pos = atpos.get(a)
                if pos is None:
                    continue
                v = vals.get(pos, self)
                if v is self:
                    try:
                        v = self.ind_value(pos, st, None)
                    except KeyError:
                        v = None
                    vals[pos] = v
                if v is UNDEF and pos[0] == "t":
                    continue              # the text was lost in the last round
                if not isinstance(v, Poly):
                    return False
                m[a] = v
            if not F.ge(subst(q, m)):
                return False
        return True

    def ndlevel(self, b):
        x = b.args[0]
        return x if isinstance(x, int) else (x[1] if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], int) else 0)

    def cand(self, q):
        c = q.const
        if c is not None:
            return
        q = tighten_(q)
        if self.rounds > 12 and q not in self.cands and any(ok and (q - r).const is not None for r, ok in self.cands.items()):
            return                        # widening: the same bound with another constant, again and again
        if q not in self.cands and sum(self.cands.values()) < MAX_CANDS:
            if self.seeding:
                self.cands[q] = all(s.facts.ge(subst(q, m)) for s, m in zip(self.S, self.bmaps))
            else:
                self.cands[q] = True

    def seed_candidates(self):
        syms = [(p, next(iter(self.bsym[p].atoms())), self.bsym[p]) for p in self.bvals if p in self.bsym]
        for p, a, s in syms:
            if p in self.warm and p not in self.reseed:
                continue
            vals = self.bvals[p]
            cs = [v.const for v in vals]
            if all(c is not None for c in cs):
                self.cand(s - P(min(cs)))
                self.cand(P(max(cs)) - s)
                if min(cs) == max(cs):
                    pass
            else:
                seen = []
                for v in vals:
                    if v not in seen and len(seen) < 4:
                        seen.append(v)
                for v in seen:
                    if self.invariant(v):
                        self.cand(s - v)
                        self.cand(v - s)
                # bounds of the values' symbols carried over
                done = []
                for s_, v in zip(self.S, vals):
                    at = [x for x in v.atoms()]
                    if v in done or len(done) > 2:
                        continue
                    if len(at) == 1 and v.degree() == 1:
                        b = at[0]
                        co = v.d.get(((b, 1),))
                        if co in (1, -1):
                            done.append(v)
                            inv = (s - P(v.d.get((), 0))) * P(co)
                            for f in s_.facts.index().get(((b, 1),), ()):
                                q = subst(f, {b: inv})
                                if q.level() < self.serial or all(x.level < self.serial or x == a or x == self.katom for x in deep_atoms(q)):
                                    self.cand(q)
                self.cand(s)
                self.cand(s - ONE)
                self.cand(s + ONE)
        # relations between the values' symbols carried over
        if not any(p in self.warm for p in self.bvals):
            for i, s_ in list(enumerate(self.S))[:8]:
                inv = {}
                for p, a, s in syms:
                    v = self.bvals[p][i]
                    at = v.atoms()
                    if len(at) == 1 and v.degree() == 1:
                        b = next(iter(at))
                        co = v.d.get(((b, 1),))
                        if co in (1, -1) and b not in inv:
                            inv[b] = (s - P(v.d.get((), 0))) * P(co)
                own = {a for p, a, s in syms} | {self.katom}
                for f in s_.facts.ges:
                    fa = f.atoms()
                    if len(fa) > 1 and sum(1 for x in fa if x in inv) > 1:
                        q = subst(f, inv)
                        if q.level() < self.serial or all(x.level < self.serial or x in own for x in deep_atoms(q)):
                            self.cand(q)
        # differences
        pp = sorted([(s, self.bvals[p], p[0]) for p, a, s in syms], key=lambda t: t[2] in "ms")[:14]
        for i in range(len(pp)):
            for j in range(i):
                d = [x - y for x, y in zip(pp[i][1], pp[j][1])]
                if all(x.const is not None for x in d):
                    lo, hi = min(x.const for x in d), max(x.const for x in d)
                    self.cand(pp[i][0] - pp[j][0] - P(lo))
                    self.cand(P(hi) - pp[i][0] + pp[j][0])
                elif any(x.const is not None for x in d):
                    cs = [x.const for x in d if x.const is not None]
                    self.cand(pp[i][0] - pp[j][0] - P(min(cs)))
                    self.cand(P(max(cs)) - pp[i][0] + pp[j][0])
                elif pp[i][2] == pp[j][2] == "e" and all(x == d[0] for x in d) and self.invariant(d[0]):
                    self.cand(pp[i][0] - pp[j][0] - d[0])
                    self.cand(d[0] - pp[i][0] + pp[j][0])
        # sizes of blocks that are a multiple of a count
        for p, a, s in syms:
            if p[0] != "s":
                continue
            for p2, a2, x in syms:
                if p2[0] in ("e", "m") and x.isint():
                    c = ratio(self.bvals[p], self.bvals[p2])
                    if c is not None and self.invariant(c):
                        self.cand(s - c * x)
                        self.cand(c * x - s)

    # -------------------------------------------------------------- inductive arrivals
    def ind_value(self, pos, st, hv):
        """Value of a position in an inductive arrival."""
        k = pos[0]
        if k == "e":
            v = st.frames[-1].get(pos[1], UNDEF)
        elif k == "n":
            v = st.gn.get(pos[1], UNDEF)
        elif k == "g":
            v = st.g.get(pos[1], UNDEF)
        elif k == "s":
            v = st.mem[pos[1]].size
        elif k == "m":
            o = st.mem[pos[1]]
            rng, kind = self.mem[pos[1]]["scal"][(pos[2], pos[3])]
            v = self.eng.read_log(o.base, o.log, pos[2], pos[3], kind, rng, st.facts)
        elif k == "t":
            v = UNDEF
            at = pos[2]
            if isinstance(at, tuple):
                p = st.frames[-1].get(at[1])
                at = p.off if isinstance(p, Ptr) and p.obj == pos[1] else None
            t = self.text_at(st.mem[pos[1]], st, at)
            if t is not None:
                v = t[0]
        self.indraw.setdefault(pos, []).append(v)
        if isinstance(v, Ptr):
            return v.off
        if isinstance(v, Bool):
            return ind(v) if not isinstance(hv, Bool) else v
        return v

    def check(self, arrivals):
        """Compares the inductive arrivals with the header; weakens and returns True if something changed."""
        changed = False
        self.why = []
        lost = []
        H = self.H
        # memory effects
        for n, ho in H.mem.items():
            hid = set(map(id, ho.log))
            hset = None
            news = []
            for st in arrivals:
                o = st.mem.get(n)
                if o is None:
                    continue
                if o is ho or o.log is ho.log:
                    news.append([])
                    continue
                nw = [e for e in o.log if id(e) not in hid]
                if nw:
                    if hset is None:
                        hset = set(ho.log)
                    nw = [e for e in nw if e not in hset]
                news.append(nw)
            for st in arrivals:
                o = st.mem.get(n)
                if o is not None and not same_base(o.base, ho.base):
                    md = self.md(n)
                    if not md["base"]:
                        md["base"] = True
                        changed = True
                        self.why.append(("base", n))
            if any(news):
                if self.check_mem(n, ho, arrivals, news):
                    changed = True
                    self.why.append(("mem", n))
            # texts
            have = set(t[0] for t in ho.texts)
            for st in arrivals:
                o = st.mem.get(n)
                for t in o.texts if o is not None else ():
                    if t[0].const is not None and t[0] not in have and t[0] not in self.tpos.get(n, ()) \
                            and ("t", n, t[0], "x") not in self.modes:
                        self.tpos.setdefault(n, []).append(t[0])
                        changed = True
            for (a, b, v) in ho.texts:
                for st in arrivals:
                    o = st.mem.get(n)
                    if o is None:
                        continue
                    at, key = a, a
                    x = self.etext.get((n, a))
                    if x is not None:
                        p = st.frames[-1].get(x)
                        at, key = p.off if isinstance(p, Ptr) and p.obj == n else None, ("@", x)
                    f = self.text_at(o, st, at)
                    f = [f] if f is not None else []
                    if not f:
                        if ("t", n, key, "x") not in self.modes and ("t", n, key) not in lost:
                            lost.append(("t", n, key))
                    elif x is None and f[0][1] != v and not (isinstance(v, tuple) and v[:1] == ("any",) and len(v) == 4 and v[3] == self.serial):
                        if ("t", n, a, "v") not in self.modes:
                            self.modes[("t", n, a, "v")] = ("x",)
                            self.why.append(("text", n))
                            changed = True
        # numeric positions
        todo, aff = [], False
        self.indraw = {}
        self.imaps = [{self.katom: self.kappa + 1} for _ in arrivals]
        for pos, hv in list(self.hpos.items()):
            if pos[0] in ("m", "s", "t") and pos[1] not in H.mem:
                continue
            if pos[0] == "t" and (pos + ("x",)) in self.modes:
                continue
            mode = self.modes.get(pos, ("inv",))
            vals = [self.ind_value(pos, st, hv) for st in arrivals]
            self.indvals[pos] = [v for v in vals if isinstance(v, Poly)]
            if isinstance(hv, UPtr):
                if any(v is not hv for v in vals):
                    if pos not in self.forced:
                        self.forced.add(pos)
                        changed = True
                continue
            if isinstance(hv, Bool):
                if any(v != hv for v in vals):
                    self.modes[pos] = ("sym",)
                    changed = True
                continue
            if pos in lost:
                # decided when everything else is stable
                i = mode[1] if mode[0] == "aff" else subst(mode[1], {IDX: self.kappa}) if mode[0] == "sum" else ZERO
                vals = [hv + i if v is UNDEF else v for v in vals]
            ps = [v if isinstance(v, Poly) else fresh("u") for v in vals]
            if mode[0] == "sym":
                s = self.bsym[pos]
                if s.isint() and not all(v.isint() for v in ps):
                    self.sym(pos, False)
                    changed = True
                a = next(iter(s.atoms()))
                for m, v in zip(self.imaps, ps):
                    m[a] = v
                self.comes(s, ps)
                ds = [(v - s).const for v in ps]
                bv = self.bvals.get(pos)
                if all(d is not None for d in ds) and bv:
                    for b in bv[:2]:
                        if self.invariant(b):
                            self.cand(s - b - self.kappa * P(min(ds)))
                            self.cand(b + self.kappa * P(max(ds)) - s)
                continue
            want = hv
            if mode[0] == "aff":
                inc = [mode[1]] * len(ps)
            elif mode[0] == "sum":
                inc = [subst(mode[1], {IDX: self.kappa})] * len(ps)
            else:
                inc = [ZERO] * len(ps)
            bad = False
            for v, i, st in zip(ps, inc, arrivals):
                d = v - hv - i
                if d.const == 0:
                    continue
                d = resolve(d, st.facts)
                if d.const == 0 or (d.isint() and st.facts.eq0(d)):
                    continue
                bad = True
                break
            if not bad:
                continue
            if pos in self.warm and mode[0] != "sym":
                self.warm.discard(pos)
                self.modes.pop(pos)
                changed = True
                self.why.append(("warm", pos))
                continue
            diffs = [v - hv for v in ps]
            todo.append((pos, mode, hv, ps, diffs))
        later = []
        for pos, mode, hv, ps, diffs in todo:
            self.why.append((pos, mode, hv, ps))
            changed = True
            d0 = diffs[0]
            t = self.tries.get(pos, 0)
            if mode[0] == "inv" and self.invariant(d0) and all(d == d0 for d in diffs):
                self.modes[pos] = ("aff", d0)
                aff = True
            elif mode[0] == "inv" and self.linear(hv, ps) is not None:
                self.modes[pos] = ("aff", self.linear(hv, ps))
                aff = True
            else:
                later.append((pos, mode, hv, ps, diffs))
        if aff:
            # what was learned about memory took the stepping variables for constants: start again
            self.mem.clear()
        else:
            for pos, mode, hv, ps, diffs in later:
                t = self.tries[pos] = self.tries.get(pos, 0) + 1
                body = None
                if t <= 3 and mode[0] in ("inv", "aff", "sum") and pos[0] != "g":
                    dd = [resolve(d, s.facts) for d, s in zip(diffs, arrivals)]
                    body = tree([(s.path, d) for s, d in zip(arrivals, dd)])
                    if body is not None:
                        body = subst(body, {self.katom: var(IDX)})
                        if body.level() >= self.serial or any(a.kind == "sum" and IDX in deep_atoms(a.a[2]) for a in body.atoms()):
                            body = None
                    if body is not None and mode[0] == "sum" and body == mode[1]:
                        body = None
                if body is not None:
                    self.modes[pos] = ("sum", body)
                else:
                    self.modes[pos] = ("sym",)
        self.prev = [(st, {}) for st in arrivals]
        if changed:
            self.new_candidates(arrivals)
            return True
        # candidate facts
        self.new_candidates(arrivals)
        fresh_ = [q for q, ok in self.cands.items() if ok and q not in H.facts.ges]
        FN = [with_facts(st.facts, fresh_) for st in arrivals]
        for q, ok in list(self.cands.items()):
            if not ok:
                continue
            new = q not in H.facts.ges
            for st, m, F in zip(arrivals, self.imaps, FN):
                if not (F if new else st.facts).ge(subst(q, m)):
                    self.cands[q] = False
                    changed = True if not new else changed
                    self.why.append(("cand", q, new))
                    break
            else:
                if new:
                    good = True
                    for s, m in zip(self.S, self.bmaps):
                        if not s.facts.ge(subst(q, m)):
                            self.cands[q] = False
                            good = False
                            break
                    if good:
                        self.why.append(("newcand", q))
                        changed = True
        if not changed:
            for pos in lost:
                self.modes[pos + ("x",)] = ("x",)
                self.hpos.pop(pos, None)
                self.why.append(("lost", pos))
                changed = True
        return changed

    def new_candidates(self, arrivals):
        H = self.H
        allowed = {self.katom} | {next(iter(s.atoms())) for s in self.bsym.values()}
        for st, m in zip(arrivals, self.imaps):
            inv = {self.katom: self.kappa - 1}
            for a, v in m.items():
                if a == self.katom:
                    continue
                d = v - var(a)
                if a not in deep_atoms(d) and all(x.level < self.serial for x in deep_atoms(d)):
                    inv[a] = var(a) - d
                else:
                    at = [x for x in v.atoms() if x.level >= self.serial and x not in allowed]
                    if len(at) == 1 and v.d.get(((at[0], 1),)) in (1, -1) and at[0] not in inv:
                        x = at[0]
                        co = v.d[((x, 1),)]
                        rest = v - var(x) * P(co)
                        if all(y.level < self.serial for y in deep_atoms(rest)):
                            inv[x] = (var(a) - rest) * P(co)
            for a, v in m.items():
                # the old value of a changing symbol became the new value of another one
                if a != self.katom and v.isint() and len(v.d) == 1:
                    x = next(iter(v.atoms()), None)
                    if x in allowed and x not in inv and x is not a and x is not self.katom and self.changes(x, m) and v == var(x):
                        inv[x] = var(a)
            for g in st.facts.ges:
                if g in H.facts.ges or g.level() < self.serial:
                    continue
                ats = deep_atoms(g)
                if not all(x.level < self.serial or x in inv or x in allowed for x in ats):
                    continue
                # symbols that change unpredictably cannot be expressed
                if any(x in allowed and x not in inv and self.changes(x, m) for x in ats):
                    continue
                self.cand(subst(g, inv))

    def linear(self, hv, ps):
        """Increment D if every arrival is hv + D * (iteration + 1)."""
        c = ps[0].d.get(((self.katom, 1),))
        if c is None or c == 0:
            return None
        D = P(c)
        want = hv + D * (self.kappa + 1)
        return D if all(v == want for v in ps) else None

    def changes(self, x, m):
        v = m.get(x)
        return v is not None and v != var(x)

    def check_mem(self, n, ho, arrivals, news):
        """New log entries of one object in the inductive arrivals."""
        md = self.md(n)
        changed = False
        before = (set(md["scal"]), set(md["hav"]))
        variants = []                     # per arrival: dict segkey -> (entry, value)
        for nw, st in zip(news, arrivals):
            vs = {}
            for e in nw:
                if e[0] == "w" and not self.invariant(e[1]):
                    off = e[1]
                    o0 = subst(off, {self.katom: ZERO})
                    D = off - o0
                    co = None
                    if len(D.d) == 1:
                        (mo, c), = D.d.items()
                        if mo == ((self.katom, 1),):
                            co = int(c)
                    if co and self.invariant(o0) and abs(co) >= e[2]:
                        k = (o0, co, e[2])
                        if k not in vs:
                            vs[k] = e
                        continue
                    md["hav"].add(("h", e[4]))
                elif e[0] == "w":
                    self.record(n, e)
                else:
                    md["hav"].add(self.describe(e))
            variants.append(vs)
        allk = set()
        for vs in variants:
            allk |= set(vs)
        dead = md.setdefault("dead", set())
        for k in allk:
            if k in dead:
                continue
            e0 = next(vs[k] for vs in variants if k in vs)
            ok = all(k in vs for vs in variants) and len(variants) == len(arrivals) and not (self.tries.get(("seg", n, k), 0) > 4)
            if ok:
                # other new entries must not touch the earlier elements
                lo, hi = (k[0], k[0] + self.kappa * k[1]) if k[1] > 0 else (k[0] + self.kappa * k[1] + k[2], k[0] + k[2])
                for nw, st in zip(news, arrivals):
                    for e in nw:
                        if e[0] == "w" and e[1] == k[0] + self.kappa * k[1] and e[2] == k[2]:
                            continue
                        if not self.disjoint(e, lo, hi, e0[4], st.facts, k):
                            ok = False
            if not ok:
                if k in md["seg"]:
                    del md["seg"][k]
                    changed = True
                dead.add(k)
                md["hav"].add(("h", e0[4]))
                continue
            vals = []
            for vs, st in zip(variants, arrivals):
                v = vs[k][3]
                vals.append((st.path, num(v) if isinstance(v, Bool) else v))
            val = None
            if all(isinstance(v, Poly) for p, v in vals):
                vals = [(p, resolve(v, s.facts)) for (p, v), s in zip(vals, arrivals)]
                t = tree(vals)
                if t is not None:
                    t = subst(t, {self.katom: var(IDX)})
                    if t.level() < self.serial:
                        val = t
            sg = md["seg"].get(k)
            if sg is None:
                md["seg"][k] = dict(val=val, rng=e0[4])
                changed = True
            else:
                good = sg["val"] is None
                if not good:
                    good = True
                    for (p, v), st in zip(vals, arrivals):
                        if not isinstance(v, Poly):
                            good = False
                            break
                        d = resolve(v - subst(sg["val"], {IDX: self.kappa}), st.facts)
                        if d.const != 0:
                            good = False
                            break
                if not good:
                    t = self.tries[("seg", n, k)] = self.tries.get(("seg", n, k), 0) + 1
                    sg["val"] = val if t <= 2 and val != sg["val"] else None
                    changed = True
        for k in list(md["seg"]):
            if k not in allk and arrivals:
                rng = md["seg"][k]["rng"]
                del md["seg"][k]
                dead.add(k)
                md["hav"].add(("h", rng))
                changed = True
        if (set(md["scal"]), set(md["hav"])) != before:
            changed = True
        return changed

    def disjoint(self, e, lo, hi, rng, F, k):
        erng = e[4] if e[0] == "w" else e[6] if e[0] in ("seg", "cp") else e[1] if e[0] == "h" else None
        if sem.rng_disjoint(rng, erng):
            return True
        if e[0] == "w":
            d = e[1] - k[0]
            r = d.d.get((), 0) % k[1]
            q = d - r
            if r >= k[2] and r + e[2] <= abs(k[1]) and all((c / k[1] if not isinstance(c, int) else Fraction(c, k[1])).denominator == 1 for c in q.d.values()):
                return True                    # interleaved field of the same array
            return F.ge(e[1] - hi) or F.ge(lo - e[1] - e[2])
        if e[0] == "hr":
            return F.ge(e[1] - hi) or F.ge(lo - e[2])
        if e[0] in ("z", "cp"):
            return F.ge(e[1] - hi) or F.ge(lo - e[1] - e[2])
        if e[0] == "seg" and e[2] > 0:
            d = e[1] - k[0]
            if e[2] == k[1] and d.const is not None:
                r = d.const % k[1]
                if r >= k[2] and r + e[3] <= abs(k[1]):
                    return True
            return F.ge(e[1] - hi) or F.ge(lo - e[1] - e[5] * e[2])
        return False


def tighten_(q):
    from facts import tighten
    return tighten(q) if q.isint() else q


def with_facts(F, qs):
    """The facts with further hypotheses."""
    for q in qs:
        F = F._with(q)
    return F


def ok_atoms(x, alive):
    return x is None or all(a in alive for a in deep_atoms(x) if a is not IDX)


def state_atoms(st):
    acc = set()
    for f in st.facts.ges:
        deep_atoms(f, acc)
    for v in list(st.frames[-1].values()) + list(st.gn.values()) + list(st.g.values()):
        deep_atoms(v, acc)
    for o in st.mem.values():
        deep_atoms(o.size, acc)
        for e in o.log:
            for x in e:
                if isinstance(x, (Poly, Bool, Ptr)):
                    deep_atoms(x, acc)
    return acc


def norm_(c):
    return c.numerator if c.denominator == 1 else c


def ratio(ss, xs):
    """The common factor C with s = C * x for all pairs, if there is one."""
    c = None
    for s, x in zip(ss, xs):
        k = x.const
        if k is not None:
            if k == 0:
                return None
            q = s * P(norm_(Fraction(1) / Fraction(k)))
        elif len(x.d) == 1:
            (mo, f), = x.d.items()
            d = {}
            for m, v in s.d.items():
                e = dict(m)
                for a, n in mo:
                    if e.get(a, 0) < n:
                        return None
                    e[a] -= n
                    if not e[a]:
                        del e[a]
                d[tuple((a, e[a]) for a, n in m if a in e)] = norm_(Fraction(v) / Fraction(f))
            q = Poly(d)
        else:
            return None
        if c is None:
            c = q
        elif c != q:
            return None
    return c


def same_base(a, b):
    return a is b or (isinstance(a, str) and a == b)


def clone(st):
    s = st.copy()
    return s


def prune(eng, f, h, st):
    live = eng.liveness(f)[h]
    env = st.frames[-1]
    st.frames = st.frames[:-1] + [{k: v for k, v in env.items() if k in live}]


def run_loop(eng, f, h, states):
    serial = next_serial()
    body = f.loops[h]
    eng.stats["loops"] += 1
    parts = {}
    order = []

    stack = states[0].stack

    def part(key, st):
        p = parts.get(key)
        if p is None:
            p = parts[key] = Part(eng, f, h, key, serial, True)
            w = eng.warm.get((stack, f.name, h, key))
            if w is not None and st is not None and eng.opt.get("warm", True):
                p.start_from(w, st)
            order.append(p)
            if len(parts) > eng.opt.get("maxparts", 120):
                raise AnalysisBroken("too many partitions at %s of %s" % (h, f.name))
        return p
    for s in states:
        for mon in eng.mons:
            mon.on_arrival(s, f, h, False)
        prune(eng, f, h, s)
        eng.collect(s)
        p = part(key_of(eng, f, h, s), s)
        p.edges.setdefault("out", []).append(s)
    dirty = list(order)
    results = {}
    rounds = 0
    while dirty:
        rounds += 1
        if rounds > 400:
            raise AnalysisBroken("loop analysis does not converge: %s of %s" % (h, f.name))
        p = dirty.pop(0)
        if not p.edges:
            results.pop(p.key, None)
            continue
        # iterate this partition to inductiveness
        p.rounds += 1
        if p.rounds > MAX_ROUNDS:
            raise AnalysisBroken("partition does not converge: %s of %s %s KEY %s" % (h, f.name, str(getattr(p,"why",""))[-1500:], str(p.key)[:600]))
        H = p.build()
        sig = p.signature()
        if sig == p.sig:
            if not p.unstable:
                continue
            if any(w[0] != "newcand" for w in p.why):
                raise AnalysisBroken("loop analysis is stuck: %s of %s %s" % (h, f.name, str(p.why)[:600]))
            for w in p.why:                    # facts the head does not keep: do without
                p.cands[w[1]] = False
        p.sig = sig
        eng.stats["iters"] += 1
        saved = eng.begin_buffer()
        try:
            rets, backs, exits = eng.region(f, h, [clone(H)], body, h)
            for s in backs:
                for mon in eng.mons:
                    mon.on_arrival(s, f, h, True)
            for s in backs:
                prune(eng, f, h, s)
                eng.collect(s)
        finally:
            buf = eng.end_buffer(saved)
        mine, other = [], {}
        for s in backs:
            k = key_of(eng, f, h, s)
            if k == p.key:
                mine.append(s)
            else:
                other.setdefault(k, []).append(s)
        results[p.key] = (rets, exits, buf)
        p.unstable = len(mine) > 0 and p.check(mine)
        if p.unstable:
            dirty.insert(0, p)
        # deliver to other partitions
        for q in list(order):
            if p.key in q.edges and q.key not in other:
                del q.edges[p.key]
                if q not in dirty:
                    dirty.append(q)
        if dirty and dirty[0] is p:
            continue                       # not stable yet: deliver later
        for k, ss in other.items():
            q = part(k, ss[0])
            for s in ss:
                s.path = ()
            q.edges[p.key] = ss
            if q not in dirty:
                dirty.append(q)
    rets, exits = [], []
    for p in order:
        r = results.get(p.key)
        if r is None or not p.edges:
            continue
        rets += r[0]
        eng.commit_buffer(r[2])
        eng.warm[(stack, f.name, h, p.key)] = p.memo()
        for to, s in r[1]:
            solve_exit(s, p.kappa)
            exits.append((to, s))
    return rets, exits


def merge_states(eng, f, b, states):
    groups = {}
    for s in states:
        eng.collect(s)
        groups.setdefault(key_of(eng, f, b, s), []).append(s)
    out = []
    for k, ss in groups.items():
        if len(ss) == 1:
            out += ss
            continue
        p = Part(eng, f, b, k, float("inf"), False)
        p.edges["out"] = ss
        p.katom = None
        out.append(p.build())
    return out
