"""Monitors of the simulator's own properties (C07 - C12, C18)."""
from expr import *
from sem import Monitor
import ext
from fractions import Fraction
from joins import resolve


def is_flag(path):
    """Names of busy flags: another text followed by a constant suffix."""
    return path is not None and path[0] == "cat" and path[-1][0] == "lit" and len(path) > 2


class Busy(Monitor):
    """C07.  st.g["bsy"]: None | "absent" (looked for, not there) | "held" (created by this save)."""

    def __init__(self, prop="C07"):
        self.prop = prop
        self.n = dict(flag_checks=0, flag_created=0, flag_removed=0, guarded_opens=0, saves_ended=0)

    def start(self, st):
        st.g["bsy"] = None
        st.g["bsyn"] = None

    def rep(self, ins, what, st):
        self.eng.report(self.prop, ins, what, st)

    def on_event(self, st, kind, ins, **kw):
        op = st.g.get("op")
        if kind == "begin":
            st.g["bsy"] = st.g["bsyn"] = None
        elif kind == "fopen":
            path, w = kw["path"], kw["mode"] == "w"
            if op in (2, 4, 5, 6) or op == 1 and w:
                self.rep(ins, "a file is opened outside saving, without the busy flag", st)
            elif op == 3:
                if is_flag(path):
                    if not w:
                        self.n["flag_checks"] += 1
                        if st.g["bsy"] != "held":
                            st.g["bsy"] = None if kw["ok"] else "absent"
                            st.g["bsyn"] = None if kw["ok"] else path
                    else:
                        self.n["flag_created"] += 1
                        if st.g["bsy"] == "held":
                            pass
                        elif st.g["bsy"] != "absent":
                            self.rep(ins, "the busy flag is created although it was not found absent", st)
                        elif st.g["bsyn"] != path:
                            self.rep(ins, "the busy flag created is not the one looked for", st)
                        if kw["ok"]:
                            st.g["bsy"], st.g["bsyn"] = "held", path
                else:
                    self.n["guarded_opens"] += 1
                    if st.g["bsy"] != "held":
                        self.rep(ins, "the results file is opened while the busy flag is not held", st)
        elif kind == "remove" and op:
            if is_flag(kw["path"]):
                self.n["flag_removed"] += 1
                if st.g["bsy"] != "held" or kw["path"] != st.g["bsyn"]:
                    self.rep(ins, "the busy flag is removed by a save that does not hold it", st)
                for o in st.mem.values():
                    if o.kind == "file" and o.status == "live" and not (o.aux and len(o.aux) > 2 and o.aux[2]):
                        self.rep(ins, "the busy flag is removed while the results file is open", st)
                        break
                st.g["bsy"] = st.g["bsyn"] = None
            elif st.g["bsy"] != "held":
                self.rep(ins, "a file is removed while the busy flag is not held", st)
        elif kind == "rename" and op and st.g["bsy"] != "held":
            self.rep(ins, "a file is renamed while the busy flag is not held", st)
        elif kind == "end":
            if kw["opn"] == 3:
                self.n["saves_ended"] += 1
                if st.g["bsy"] == "held":
                    self.rep(None, "saving may end without removing the busy flag", st)
            st.g["bsy"] = st.g["bsyn"] = None


def atoms_in(c):
    """Elementary conditions of a conjunction."""
    if isinstance(c, Bool) and c.pred == "and":
        for x in c.args:
            yield from atoms_in(x)
    else:
        yield c


def unwrap(c):
    """ind(b) = 1 is b."""
    if isinstance(c, Bool) and c.pred in ("eq", "ne", "ge", "gt"):
        at = c.args[0].atoms()
        if len(at) == 1:
            a = next(iter(at))
            if a.kind == "ind" and c.args[0].degree() == 1:
                t = [evaluate(c, {}, None, {a: v}) for v in (0, 1)]
                if t == [False, True]:
                    return unwrap(a.a[0])
                if t == [True, False]:
                    return unwrap(a.a[0].neg())
    return c


class Keys(Monitor):
    """Which parameter name the parser matched last.  st.g["key"]: None | (text, call sites of the match);
    forgotten when the loop around the match goes on to the next parameter.  Values read are noted per key."""

    def __init__(self, prop=None):
        self.n = {}
        self.site = {}
        self.cells = {}            # key -> {(offset, stride, size, what)} of the instance, after initialisation
        self.inst = None
        self.rngs = {}             # offset -> extent of the field it belongs to

    def start(self, st):
        st.g["key"] = None
        st.g["inst"] = None

    def on_event(self, st, kind, ins, **kw):
        if kind == "strcmp":
            self.site[("streq", kw["a"], kw["b"])] = tuple(x.bb for x in st.stack + (ins,))
        elif kind == "begin" or kind == "end":
            st.g["key"] = None
        elif kind == "ready":
            self.inst = st.g["inst"] = kw["ptr"].obj
            for o, key, off, stride, size, what, rng in self.eng.obs.get("cell", ()):
                if o == self.inst:
                    self.cells.setdefault(key, set()).add((off, stride, size, what))
                    self.rngs[off] = rng

    def on_assume(self, st, c):
        if st.g.get("key") is not None:
            return
        for x in atoms_in(c):
            x = unwrap(x)
            t = x.args[0] if isinstance(x, Bool) and x.pred == "nd" else None
            if isinstance(t, tuple) and t[0] == "streq" and t[2][0] == "lit":
                st.g["key"] = (t[2][1].decode("latin1"), self.site.get(t, ()))
                return

    def on_arrival(self, st, f, h, back):
        k = st.g.get("key")
        if k is not None:
            body = f.loops[h]
            for bb in k[1]:
                if bb.name in body and f.blocks.get(bb.name) is bb:
                    st.g["key"] = None
                    return

    def origin(self, st, v):
        k = st.g.get("key")
        return k[0] if k else None

    def on_store(self, st, p, v, size, ins):
        k = st.g.get("key")
        if k is not None and st.g.get("op") == 1 and p.obj.startswith("heap:"):
            off, stride = p.off, 0
            if p.off.const is None:
                for m, c in p.off.d.items():
                    if m:
                        stride = c if stride == 0 else None
                off = P(p.off.d.get((), 0))
            self.eng.note("cell", (p.obj, k[0], off.const, stride, size, self.what(v), p.rng))

    def what(self, v):
        if isinstance(v, Poly):
            if v.const is not None:
                return ("const", v.const)
            a = v.atoms()
            if len(a) == 1 and v == var(next(iter(a))):
                m = next(iter(a)).meta
                if m and "origin" in m:
                    return ("number", m["origin"])
        return ("other", str(v)[:60])

    def finish(self):
        for k, v in self.cells.items():
            self.eng.note("cells", (k, tuple(sorted(v, key=str))))


# --------------------------------------------------------------------------- trials
RMAX = 2 ** 31 - 1


def calls_to(eng, names):
    """Functions that may call one of the given functions, and their call instructions' blocks."""
    cg, direct = {}, {}
    for fn, f in eng.m.funcs.items():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "call" and isinstance(i.extra, tuple) and i.extra[0] == "g":
                    cg.setdefault(fn, []).append((b.name, i.extra[1]))
    hit = set(names)
    ch = True
    while ch:
        ch = False
        for fn, cs in cg.items():
            if fn not in hit and any(c in hit for _, c in cs):
                hit.add(fn)
                ch = True
    return {(fn, b) for fn, cs in cg.items() for b, c in cs if c in hit}


class Trial(Keys):
    """C10, C11, C12, C18: the course of one simulated trial.

    g: enc (objects of the encoding of this trial), dec (objects of its decoding), rc (decoder result), ml (objects of the re-encoding),
       tf (a codec call failed), tr (cells changed since decoding), tb (time dependent branch taken)
    gn: X, C (transmitted information and codeword as functions of the element index), EN (number of wrong information bits),
        ix, sg (SNR index and deviation last told to the decoder), cs (SNR number told), lr (random number of the last noise value)"""

    def __init__(self, prop=None):
        super().__init__()
        self.prop = prop
        self.eqs = {}
        self.seen1, self.pts, self.tsite, self.rngs0 = set(), set(), {}, {}
        self.n = dict(trials=0, noise_values=0, deviations_told=0, decodings=0, random_numbers=0, seedings=0, requests_adapted=0, points_left=0)
        self.trialbb = None

    def start(self, st):
        super().start(st)
        for k in ("enc", "dec", "rc", "ml", "tf", "tb", "rn"):
            st.g[k] = None
        st.g["tr"] = ()
        for k in ("X", "C", "EN", "ix", "sg", "cs", "lr", "nr"):
            st.gn[k] = ZERO

    def rep(self, prop, ins, what, st):
        self.eng.report(prop, ins, what, st)

    def want(self, *props):
        return self.prop is None or self.prop in props

    # ---- helpers
    def cell(self, st, off, size=4, ty=None):
        o = st.mem[self.inst]
        return self.eng.read_log(o.base, o.log, P(off), size, ty or ("i", 8 * size), self.rngs.get(off), st.facts)

    def item(self, st, res, stride, ix, size=4, ty=None):
        o = st.mem[self.inst]
        return self.eng.read_log(o.base, o.log, P(res) + P(stride) * ix, size, ty or ("i", 8 * size), self.rngs.get(res), st.facts)

    def content(self, st, p, size, n):
        """Element IDX of a vector of n elements."""
        o = st.mem[p.obj]
        i = var(IDX)
        F = st.facts._with(i)._with(n - 1 - i)
        v = self.eng.read_log(o.base, o.log, p.off + size * i, size, ("f", 64) if size == 8 else ("i", 32), None, F)
        return v if isinstance(v, Poly) else ind(v) if isinstance(v, Bool) else fresh("content")

    def scalar_cells(self, key, kind=None):
        return sorted({c[0] for c in self.cells.get(key, ()) if c[1] == 0 and (kind is None or c[3][0] == kind)})

    def array_cells(self, key, size):
        return sorted({(c[0], c[1]) for c in self.cells.get(key, ()) if c[1] and c[2] == size})

    def split(self, st, f, h):
        """States that differ in whether a fixed rate is given are kept apart."""
        if st.g.get("op") != 2 or self.inst not in st.mem:
            return None
        out = ()
        for off in self.scalar_cells("fixed_R") if self.want("C12") else ():
            v = self.cell(st, off, 8, ("f", 64))
            out += (self.sign(st, v),)
        if st.g["dec"] is not None and self.want("C10"):
            for off in self.scalar_cells("ml_lb_hard"):
                out += (self.sign(st, self.cell(st, off)),)
        return out

    def sign(self, st, v):
        if not isinstance(v, Poly):
            return "?"
        return "0" if st.facts.eq0(v) else "+" if st.facts.entails(mk_cmp("ne", v)) else "?"

    def in_trial_loop(self, f, h):
        if self.trialbb is None:
            self.trialbb = calls_to(self.eng, {"dec_bpsk"})
        return any((f.name, b) in self.trialbb for b in f.loops[h])

    def in_trial(self, st, ins):
        """Is the instruction inside the innermost loop that decodes?"""
        best = None
        for i, c in enumerate(st.stack + (ins,)):
            f = self.eng.m.funcs.get(c.fn.name if hasattr(c.fn, "name") else c.fn)
            if f is None:
                continue
            for h in f.loops:
                if self.in_trial_loop(f, h):
                    k = (i, -len(f.loops[h]))
                    if best is None or k > best[0]:
                        best = (k, c.bb.name in f.loops[h])
        return best is None or best[1]

    # ---- events
    def on_event(self, st, kind, ins, **kw):
        super().on_event(st, kind, ins, **kw)
        op = st.g.get("op")
        if kind == "ready":
            self.scal = {c for o, c in self.eng.obs.get("scal", ()) if o == self.inst}
            ok = {}
            for o, r, s, same in self.eng.obs.get("mincell", ()):
                if o == self.inst:
                    ok[(r, s)] = ok.get((r, s), True) and same
            for k, v in self.rngs0.items():
                self.rngs.setdefault(k, v)
            self.mins = sorted(k for k, v in ok.items() if v)
        if kind == "norand":
            st.gn["nr"] = kw["val"]
        if kind == "srand":
            self.n["seedings"] += 1
            if op != 1:
                self.rep("C11", ins, "the random generator is seeded again after the simulation was set up", st)
            elif not st.facts.eq0(st.gn["nr"]):
                self.rep("C11", ins, "the random generator may be seeded although a reproducible run was asked for", st)
        if kind == "rand":
            self.n["random_numbers"] += 1
            if op not in (1, 2):
                self.rep("C11", ins, "a random number is drawn outside the simulation of a trial", st)
            elif op == 2:
                self.acts(st)
                st.g["rn"] = 1
                if not self.in_trial(st, ins):
                    self.rep("C11", ins, "a random number is drawn outside the simulation of a trial", st)
        if kind in ("enc_bpsk", "dec_bpsk") and op == 2:
            self.acts(st)
        if kind == "time":
            self.tsite[next(iter(kw["val"].atoms()))] = self.eng.m.where(ins)
        if kind == "begin":
            st.gn["lr"] = ZERO
        if kind == "end":
            if kw["opn"] == 2:
                self.end_of_run(st, kw["rc"])
            self.reset(st)
            st.g["tb"] = None
            for k in ("ix", "sg", "cs", "lr"):
                st.gn[k] = ZERO
            return
        if kind == "fail" and op == 2 and kw["what"] in ("enc_bpsk", "dec_bpsk"):
            st.g["tf"] = kw["what"]
        if op != 2:
            return
        if kind == "free" and st.g["dec"] is not None and st.g["rn"] != "checked" and isinstance(kw["ptr"], Ptr) and kw["ptr"].obj in st.g["dec"] + (st.g["ml"] or ()):
            self.checkpoint(st, ins)
            st.g["rn"] = "checked"
        if kind == "cdc_set_sg":
            self.n["deviations_told"] += 1
            self.told(st, ins, kw["val"])
        elif kind == "cdc_set_csnrn":
            st.gn["cs"] = kw["val"] + 1
        elif kind == "enc_bpsk":
            n, k = st.gn["code_n"], st.gn["code_k"]
            a = kw["args"]
            if st.g["dec"] is None:
                st.g["enc"] = (a[1].obj, a[2].obj)
                st.gn["X"], st.gn["C"] = self.content(st, a[1], 4, k), self.content(st, a[2], 8, n)
            else:
                st.g["ml"] = (a[1].obj, a[2].obj)
                if a[1].obj != st.g["dec"][1]:
                    self.rep("C10", ins, "the codeword compared with the transmitted one is not encoded from the decoded information", st)
        elif kind == "dec_bpsk":
            self.decoded(st, ins, kw["args"], kw["rc"])

    def told(self, st, ins, val):
        """The decoder is told a deviation: it must be that of one SNR value."""
        st.gn["sg"] = val if self.want("C12") else ZERO
        st.gn["ix"] = P(-1)
        for a in sorted(deep_atoms(val), key=lambda a: a.id):
            if a.kind != "ld" or a.a[2] != 8 or a.a[3] != "f":
                continue
            for off, stride in self.array_cells("EbNo_values", 8):
                ix = (a.a[1] - off) * P(Fraction(1, stride))
                if ix.isint() and self.item(st, off, stride, ix, 8, ("f", 64)) == var(a):
                    st.gn["ix"] = ix
                    self.resumes(st, ins, ix)
                    if not self.want("C12"):
                        return
                    R = None
                    fr = [self.cell(st, o, 8, ("f", 64)) for o in self.scalar_cells("fixed_R")]
                    s = [self.sign(st, v) for v in fr]
                    if s == ["0"]:
                        R = st.gn["code_k"] * inv(st.gn["code_n"])
                    elif s == ["+"]:
                        R = fr[0]
                    if R is None:
                        self.rep("C12", ins, "the noise deviation does not depend on whether a fixed rate is given", st)
                        return
                    want = inv(fpow(P(2) * R * fpow(P(10), var(a) * P(Fraction(1, 10))), P(Fraction(1, 2))))
                    if not same_value(val, want):
                        self.rep("C12", ins, "the noise deviation is not 1/sqrt(2 R 10^(SNR/10)): %s" % val, st)
                    return
        self.rep("C12", ins, "the noise deviation is not computed from an SNR value of the simulation: %s" % val, st)

    def resumes(self, st, ins, ix):
        """Which scalar cells of the instance hold the number of the current point."""
        have = set()
        for off in self.int_cells():
            v = self.cell(st, off)
            if isinstance(v, Poly) and st.facts.eq0(v - ix):
                have.add(off)
        self.eng.note("current", (tuple(sorted(have)), self.eng.m.where(ins) if ins is not None else "return"))

    def int_cells(self):
        o = getattr(self, "_ic", None)
        if o is None:
            o = self._ic = sorted({c[0] for v in self.cells.values() for c in v if c[1] == 0 and c[2] == 4} | self.scal)
        return o

    scal = frozenset()

    def decoded(self, st, ins, a, rc):
        self.n["decodings"] += 1
        n, k = st.gn["code_n"], st.gn["code_k"]
        if st.g["dec"] is not None:
            self.checkpoint(st, ins)
        if st.g["enc"] is None:
            st.gn["X"], st.gn["C"] = ZERO, P(-1)
        st.g["dec"], st.g["rc"], st.g["ml"], st.g["tr"] = (a[1].obj, a[2].obj), rc, None, ()
        x = self.content(st, a[2], 4, k)
        st.gn["EN"] = mk_sum(ind(mk_cmp("ne", x - st.gn["X"])), k)
        self.eng.note("decin", (a[1].obj, self.eng.m.where(ins)))
        if not self.want("C12"):
            return
        self.covered(st, ins, a[1], n)
        if st.facts.eq0(st.gn["sg"]) or st.facts.eq0(st.gn["ix"] + 1):
            self.rep("C12", ins, "a trial may be decoded before the decoder was told the noise deviation", st)
        if "cdc_set_csnrn" in self.eng.m.funcs and not st.facts.eq0(st.gn["cs"] - 1 - st.gn["ix"]):
            self.rep("C12", ins, "a trial may be decoded while the decoder was not told its SNR number", st)

    def covered(self, st, ins, p, n):
        """Every element of the decoder's input was generated for this trial."""
        segs, single = [], {}
        for e in st.mem[p.obj].log:
            if e[0] == "seg" and e[3] == 8 and e[1].const is not None and e[2] > 0:
                segs.append(e)
            elif e[0] == "w" and e[2] == 8 and e[1].const is not None:
                single.setdefault(int(e[1].const), e)
            else:
                break
        D = segs[0][2] if segs else 8
        for r in range(0, int(D), 8):
            at = r
            while at in single and not any(e[2] == D and e[1].const == at for e in segs):
                if self.plain(single[at][3]):
                    self.rep("C12", ins, "the decoder's input is not noisy: %s" % single[at][3], st)
                    return
                at += int(D)
            e = next((e for e in segs if e[2] == D and e[1].const == at), None)
            if e is None or not st.facts.ge(e[5] * D + at - 8 * n):
                self.rep("C12", ins, "not every element of the decoder's input is generated for the trial", st)
                return
            if e[4] is not None:
                self.rep("C12", ins, "the decoder's input is not noisy: %s" % e[4], st)
                return

    def plain(self, v):
        return isinstance(v, Poly) and not any(a.kind == "sym" for a in deep_atoms(v))

    def noise(self, st, p, v, ins):
        """One generated channel output."""
        rs = [a for a in deep_atoms(v) if a.kind == "sym" and a.a[0] == "rand"]
        if not rs:
            return
        self.n["noise_values"] += 1
        C = st.gn["C"] if st.g["enc"] is not None else P(-1)
        cw = subst(C, {IDX: p.off * P(Fraction(1, 8))})
        sg = st.gn["sg"]
        c = P(Fraction(2, RMAX))
        rnd = lambda a: (self.rng.randint(1, RMAX) if a.kind == "sym" and a.a[0] == "rand" else self.rng.randint(1, 9) if a.isint else self.rng.uniform(0.2, 3.0))
        what = "not the codeword plus normal noise of the deviation told to the decoder: %s" % v
        for a in rs:
            for b in rs:
                if a is b and len(rs) > 1:
                    continue
                x, y = c * var(a) - 1, c * var(b) - 1
                r = x * x + y * y
                w = cw + sg * x * fpow(P(-2) * flog(r) * inv(r), P(Fraction(1, 2)))
                if same_value(v, w, rnd, 12):
                    if a is b:
                        what = "generated from a single random number"
                    elif not st.facts.entails(mk_cmp("ge", 1 - r)):
                        what = "generated from a point that may lie outside the unit circle"
                    elif st.gn["lr"] == var(a):
                        what = "generated from the random number of its neighbour"
                    else:
                        what = None
                    st.gn["lr"] = var(a)
        self.eng.note("noise", (p.obj, what, self.eng.m.where(ins)))

    import random as _r
    rng = _r.Random(5)

    # ---- stores
    def on_store(self, st, p, v, size, ins):
        super().on_store(st, p, v, size, ins)
        op = st.g.get("op")
        if op == 1:
            self.init_store(st, p, v, size, ins)
        if op in (3, 4, 5) and p.obj == self.inst and p.rng is not None:
            self.eng.note("changed", (p.rng, self.eng.m.where(ins)))
        if op != 2:
            return
        if p.obj != self.inst:
            if st.g["dec"] is None and isinstance(v, Poly) and size == 8 and self.want("C12"):
                self.noise(st, p, v, ins)
            return
        self.acts(st)
        w = self.eng.m.where(ins)
        if not isinstance(v, Poly) or size != 4:
            self.eng.note("store", (p.rng, None, None, "other", w))
            return
        self.time_value(st, v, ins)
        old = self.eng.read_log(st.mem[p.obj].base, st.mem[p.obj].log, p.off, 4, ("i", 32), p.rng, st.facts)
        ix = st.gn["ix"]
        if p.off.const is not None and (p.rng is None or p.rng[1] - p.rng[0] == 4 or ix.const is None):
            d = v - old if isinstance(old, Poly) else None
            if d is not None and d.const != 0:
                self.left(st, int(p.off.const), d, w, ins)
            return
        res, stride = self.element(st, p, ix)
        self.rngs.setdefault(res, p.rng)
        self.eng.note("store", (p.rng, res, stride, "trial" if st.g["dec"] is not None else "outside", w))
        if (res, 4) in self.array_cells("SNR_val_trn", 4):
            self.adapt(st, res, stride, ix, v, ins)
        elif st.g["dec"] is not None:
            if stride:
                self.pts.add((res, stride))
            if not self.want("C10", "C18"):
                return
            i = len(st.g["tr"])
            st.g["tr"] = st.g["tr"] + ((res, w),)
            st.gn["tr%d" % i] = v - old if isinstance(old, Poly) else fresh("delta")

    def element(self, st, p, ix):
        """(offset of the cell in the first element, element size) if p addresses a cell of element ix of an array."""
        if ix.const is not None and p.off.const is not None:
            for r, s in sorted(self.pts) + self.array_cells("SNR_val_trn", 4) + list(self.mins):
                if p.off.const == r + s * ix.const and self.rngs.get(r) == p.rng:
                    return r, s
            return int(p.off.const), None
        for m, k in ix.d.items():
            c = p.off.d.get(m)
            if m and c:
                c = Fraction(c) / Fraction(k)
                base = p.off - ix * P(c)
                if c.denominator == 1 and base.const is not None:
                    return int(base.const), int(c)
                break
        return int(p.off.d.get((), 0)), None

    def init_store(self, st, p, v, size, ins):
        if not p.obj.startswith("heap:") or size != 4:
            return
        if p.off.const is not None:
            self.eng.note("scal", (p.obj, int(p.off.const)))
            self.rngs0[int(p.off.const)] = p.rng
            return
        req = [(c[2], c[3]) for c in self.seen1 if c[0] == p.obj and c[1] == "SNR_val_trn"]
        res = int(p.off.d.get((), 0))
        self.rngs.setdefault(res, p.rng)
        cs = {abs(int(c)) for m, c in p.off.d.items() if m and not (isinstance(c, Fraction) and c.denominator != 1)}
        if len(cs) != 1:
            return
        s = cs.pop()
        k = st.g.get("key")
        if k is not None and self.what(v)[0] == "number":
            self.seen1.add((p.obj, k[0], res, s))
        if k is None:
            o = st.mem[p.obj]
            same = False
            for r, q in req:
                if q == s and r != res:
                    x = self.eng.read_log(o.base, o.log, p.off - res + r, 4, ("i", 32), None, st.facts)
                    same = same or isinstance(x, Poly) and isinstance(v, Poly) and st.facts.eq0(x - v)
            if (p.obj, res, s) not in {(c[0], c[2], c[3]) for c in self.seen1}:
                self.eng.note("mincell", (p.obj, res, s, same))

    # ---- C18
    def adapt(self, st, res, stride, ix, v, ins):
        if not self.want("C18"):
            return
        self.n["requests_adapted"] += 1
        floor = set()
        for r, s in self.mins:
            m = self.item(st, r, s, ix)
            if isinstance(m, Poly) and st.facts.ge(v - m):
                floor.add(r)
        few = set()
        for c in self.scalar_cells("min_errors_per_snr"):
            lim = self.cell(st, c)
            for r, s in self.pts:
                e = self.item(st, r, s, ix)
                if isinstance(e, Poly) and isinstance(lim, Poly) and st.facts.ge(lim - e - 1):
                    few.add(r)
        self.eng.note("adapt", (tuple(sorted(floor)), tuple(sorted(few)), stride, self.eng.m.where(ins)))

    mins = ()

    def left(self, st, off, d, w, ins):
        """A scalar of the instance changes in a run: if it is the current point, the point must be finished."""
        if not self.want("C18"):
            return
        self.n["points_left"] += 1
        self.eng.note("left", (off, str(d), tuple(sorted(self.finished(st, st.gn["ix"]))), w))

    def finished(self, st, ix):
        out = set()
        for q, qs in self.array_cells("SNR_val_trn", 4):
            req = self.item(st, q, qs, ix)
            for r, s in self.pts:
                t = self.item(st, r, s, ix)
                if isinstance(t, Poly) and isinstance(req, Poly) and st.facts.ge(t - req):
                    out.add(r)
        return out

    def end_of_run(self, st, rc):
        if st.g["dec"] is not None and st.g["rn"] != "checked":
            self.checkpoint(st, None)
        F = st.facts
        if F.ge(-1 - rc):
            return
        if F.eq0(rc):
            left = set()
            for c in self.scalar_cells("EbNo_values"):
                num = self.cell(st, c)
                for off in self.int_cells():
                    v = self.cell(st, off)
                    if isinstance(v, Poly) and isinstance(num, Poly) and F.ge(v - num) and off != c:
                        left.add(off)
            self.eng.note("completed", tuple(sorted(left)))
        else:
            self.resumes(st, None, st.gn["ix"])
            if st.g["rn"] and st.g["dec"] is None and not F.ge(-1 - rc):
                self.rep("C11", None, "the run may return in the middle of a trial whose random numbers are drawn again", st)
        if st.g["tb"] is not None and not F.ge(rc - 1):
            self.rep("C11", None, "the run may report completion because of the time elapsed", st)

    # ---- C11
    def time_value(self, st, v, ins):
        if any(a.kind == "sym" and a.meta and a.meta.get("time") for a in deep_atoms(v)):
            self.rep("C11", ins, "the clock determines a value of the simulation", st)

    def acts(self, st):
        if st.g.get("tb"):
            self.eng.note("acts", st.g["tb"])

    def on_assume(self, st, c):
        super().on_assume(st, c)
        if st.g.get("op") == 2:
            for x in atoms_in(c):
                t = [a for a in deep_atoms(x) if a.kind == "sym" and a.meta and a.meta.get("time")] if isinstance(x, Bool) else ()
                if t:
                    a = max(t, key=lambda a: a.id)
                    st.g["tb"] = (self.tsite.get(a, "?"), self.polarity(x, a))

    def polarity(self, x, a):
        p = x.args[0]
        if isinstance(p, Poly):
            return x.pred + ("+" if p.d.get(((a, 1),), 0) > 0 else "-")
        return x.pred

    # ---- end of a trial
    def on_arrival(self, st, f, h, back):
        super().on_arrival(st, f, h, back)
        if st.g.get("op") == 2 and self.in_trial_loop(f, h):
            if st.g["dec"] is not None:
                self.checkpoint(st, None)
            self.reset(st)
            st.g["tb"] = None

    def reset(self, st):
        for k in ("enc", "dec", "rc", "ml", "tf", "rn"):
            st.g[k] = None
        for i in range(len(st.g["tr"])):
            st.gn.pop("tr%d" % i, None)
        st.g["tr"] = ()
        for k in ("X", "C", "EN"):
            st.gn[k] = ZERO

    def same(self, x, y):
        k = (x, y)
        r = self.eqs.get(k)
        if r is None:
            r = self.eqs[k] = same_value(x, y, self.draw, 30)
        return r

    def draw(self, a):
        """Random contents: often bits, so that equal and different elements both occur."""
        return self.rng.choice((0, 1, 1, 2, 3, 4)) if a.isint else self.rng.choice((-1.0, 1.0, self.rng.uniform(-2, 2)))

    def aliases(self, st, p):
        """p with its sums replaced by sums of the same value that something is known about."""
        F = st.facts
        known = {a for c in (F.ges, F.nes) for q in c for a in q.atoms() if a.kind == "sum"}
        m = {}
        for a in p.atoms():
            if a.kind == "sum" and a not in known:
                for b in sorted(known, key=lambda b: b.id):
                    if self.same(var(a), var(b)):
                        m[a] = var(b)
                        break
        return subst(p, m) if m else p

    def relation(self, st, p):
        F = st.facts
        for q in (p, self.aliases(st, p)):
            if F.eq0(q):
                return "0"
            if F.entails(mk_cmp("gt", q)):
                return ">"
            if F.entails(mk_cmp("gt", -q)):
                return "<"
            if F.entails(mk_cmp("ne", q)):
                return ">" if F.ge(q) else "<" if F.ge(-q) else "ne"
            if F.ge(q):
                return ">="
            if F.ge(-q):
                return "<="
        return "?"

    def distances(self, st):
        """Which of the transmitted and the decoded codeword is closer to the channel output."""
        n = st.gn["code_n"]
        first = None
        cs = [o for o in st.mem if o.startswith("heap:") and o != self.inst and o not in (st.g["ml"] or ())]
        for y in [st.g["dec"][0]] + sorted(o for o in cs if o != st.g["dec"][0]):
            if st.mem[y].status == "freed":
                continue
            v = self.content(st, Ptr(y, ZERO), 8, n)
            c2 = self.content(st, Ptr(st.g["ml"][1], ZERO), 8, n)
            t1, t2 = st.gn["C"] - v, c2 - v
            D = mk_sum(t1 * t1, n) - mk_sum(t2 * t2, n)
            r = self.relation(st, D)
            if r != "?":
                return D, r, v
            first = first or (D, r, v)
        return first

    def hardness(self, v):
        """Is the vector compared the received one (soft) or its signs (hard)?"""
        at = [a for a in deep_atoms(v) if a.kind == "ld"]
        if v.atoms() and all(a.kind == "ld" for a in v.atoms()) and len(at) == 1 and v == var(at[0]):
            return "soft"
        if len(at) == 1 and at[0].kind == "ld" and self.same(v, 1 - 2 * ind(mk_cmp("ge", -var(at[0])))):
            return "hard"
        return "?"

    def checkpoint(self, st, ins):
        if not self.want("C10", "C18"):
            return
        self.n["trials"] += 1
        EN = st.gn["EN"]
        en = {"0": "0", ">": "+", "ne": "+"}.get(self.relation(st, EN), "?")
        ml, hd = (tuple(self.sign(st, self.cell(st, c)) for c in self.scalar_cells(k)) for k in ("ml_lb", "ml_lb_hard"))
        D, dst, soft = None, "-", "-"
        if st.g["ml"] is not None and self.want("C10"):
            D, dst, y = self.distances(st)
            soft = self.hardness(y)
        per = {}
        for i, (r, w) in enumerate(st.g["tr"]):
            d = st.gn["tr%d" % i]
            per[r] = per.get(r, ZERO) + d
        out = []
        for r, d in sorted(per.items()):
            if d.const is not None:
                cl = str(d.const)
            elif self.same(d, EN):
                cl = "en"
            elif self.same(d, ind(mk_cmp("ne", EN))):
                cl = "en!=0"
            elif D is not None and self.same(d, ind(mk_cmp("gt", D))):
                cl = "d>"
            else:
                cl = "? " + str(d)[:120]
            if cl != "0":
                out.append((r, cl))
        ws = tuple(sorted(set(st.g["tr"])))
        self.eng.note("trial", (st.g["rc"], en, ml, hd, dst, soft, st.g["tf"] or "", tuple(out), ws))

    # ---- what the observations amount to
    def finish(self):
        super().finish()
        O = self.eng.obs
        trials = sorted(O.get("trial", ()), key=str)
        say = lambda prop, w, what: self.eng.reports.setdefault((prop, w, what), [])
        stores = sorted(O.get("store", ()), key=str)
        cells = sorted({s[1] for s in stores if s[1] is not None and s[3] == "trial"} - {r for r, _ in self.array_cells("SNR_val_trn", 4)} - {r for r, _ in self.mins})
        roles = {}
        for name, spec in SPECS:
            bad = {r: [(o, e) for o in trials for e in [spec(o, dict(o[7]).get(r))] if e] for r in cells}
            good = [r for r in cells if not bad[r]]
            roles[name] = good[0] if good else None
        for name, spec in SPECS:
            if roles[name] is None and trials:
                free = [r for r in cells if r not in roles.values()] or cells
                cand = []
                for r in free or [None]:
                    bad = [(o, e) for o in trials for e in [spec(o, dict(o[7]).get(r))] if e]
                    cand.append((len(bad), r, bad))
                n, r, bad = min(cand, key=lambda c: (c[0], str(c[1])))
                o, e = bad[0]
                w = [w for q, w in o[8] if q == r] or [w for q in trials for r2, w in q[8] if r2 == r] or [w for q, w in o[8]] or ["?"]
                say("C10", w[0], "%s: %s (decoder returned %s%s)" % (name, e, o[0], ", then %s failed" % o[6] if o[6] else ""))
        extent = {s[0] for s in stores if s[1] in cells}
        strides = {s[2] for s in stores if s[1] in cells and s[2] is not None}
        for rng, res, stride, tag, w in stores:
            if rng in extent and (res is None or res in cells):
                if tag == "other":
                    say("C10", w, "the counters of the points are overwritten during a run")
                elif stride is None or len(strides) > 1:
                    say("C10", w, "counted at another point than the one whose noise level the decoder was told")
                elif tag == "outside":
                    say("C10", w, "a counter changes outside a successfully decoded trial")
        for rng, w in sorted(O.get("changed", ()), key=str):
            if rng in extent:
                say("C10", w, "a counter of the simulation changes while results are saved or shown")
        # C11
        cur = None
        for c, w in sorted(O.get("current", ()), key=str):
            cur = set(c) if cur is None else cur & set(c)
        if not cur and O.get("current"):
            say("C11", "?", "the simulation does not hold the number of the point it is at when it returns or starts the point")
        acts = {}
        for site, pol in O.get("acts", ()):
            acts.setdefault(site, set()).add(pol)
        for site, pols in sorted(acts.items()):
            if len(pols) > 1:
                say("C11", site, "the simulation goes on whatever the time comparison says, but differently")
        # C12
        noise = sorted(O.get("noise", ()), key=str)
        for obj, w in sorted(O.get("decin", ()), key=str):
            mine = [x for x in noise if x[0] == obj]
            if not mine:
                say("C12", w, "the decoder's input is not a noisy codeword")
            for _, what, w2 in mine:
                if what:
                    say("C12", w2, what)
        # C18
        trn, bl = roles["trials"], roles["block errors"]
        for off, d, fin, w in sorted(O.get("left", ()), key=str):
            if off in (cur or ()):
                if d != "1":
                    say("C18", w, "the simulation moves on by %s points" % d)
                if trn is not None and trn not in fin:
                    say("C18", w, "the simulation may move on before the requested number of trials is simulated")
        for off in O.get("completed", ()):
            if cur and not set(off) & cur:
                say("C18", "?", "the run may report completion before all points are finished")
        if not self.mins:
            say("C18", "?", "the minimum number of trials given for a point is not kept")
        for floor, few, stride, w in sorted(O.get("adapt", ()), key=str):
            if not floor:
                say("C18", w, "the requested number of trials may be set below the minimum given for the point")
            if bl is not None and bl not in few:
                say("C18", w, "the requested number of trials is adapted although the requested number of errors was seen")
            if stride not in {s for _, s in self.array_cells("SNR_val_trn", 4)}:
                say("C18", w, "the requested number of trials of another point is changed")
        for rng, res, stride, tag, w in stores:
            if res in {r for r, _ in self.mins} or res is None and rng in {self.rngs.get(r) for r, _ in self.mins}:
                say("C18", w, "the minimum number of trials given for a point is changed during a run")
        self.eng.note("roles", tuple(sorted(roles.items())))


def _one(o, amount, when, exact="1", extra=()):
    if o[6] and amount is None:
        return None                       # the run fails: the trial may be left uncounted
    if when is None:
        return None if amount in extra else "counted %s, but it is not decided whether it should" % amount
    if when:
        return None if amount == exact or amount in extra else "changes by %s where it has to change by %s" % (amount or "0", exact)
    return None if amount is None or amount in extra else "changes by %s where it must not change" % amount


def _en(o):
    return {"+": True, "0": False}.get(o[1])


def _ml(o):
    if o[0] == 1 or o[6]:
        return False
    return True if "+" in o[2] else False if o[2] and set(o[2]) == {"0"} else None


def _mlerr(o, a):
    m = _ml(o)
    if not m:
        return _one(o, a, m)
    if o[4] == "-":
        return "the decoded codeword is not compared with the transmitted one"
    if o[3] == ("+",) and o[5] == "soft" or o[3] == ("0",) and o[5] == "hard":
        return "the distances are those to the %s channel output" % ("soft" if o[5] == "soft" else "hard decided")
    w = {">": True, "<": False, "<=": False, "0": False}.get(o[4])
    if w is None and a != "d>":
        return "decided by something else than which codeword is strictly closer to the channel output"
    return _one(o, a, w, extra=("d>",))


# (counter, observation and change of the cell -> disagreement)
SPECS = [
    ("trials", lambda o, a: _one(o, a, True)),
    ("bit errors", lambda o, a: _one(o, a, _en(o), "en", ("en",))),
    ("block errors", lambda o, a: _one(o, a, _en(o), "1", ("en!=0",))),
    ("erasures", lambda o, a: _one(o, a, o[0] == 1)),
    ("ML trials", lambda o, a: _one(o, a, _ml(o))),
    ("ML errors", _mlerr),
]


# --------------------------------------------------------------------------- parameters
class Params(Monitor):
    """C21 for one documented parameter: where its value ends up, and that parameter names are looked for where they stand.

    g: role of the current token ("key", "val", "in" a group, None), br (its first or last character is known to be a brace),
       k (the parameter whose value is being read), seen (the parameter studied was given), own (its value was stored),
       bad (a complaint was printed)
    gn: v (value given last), item (items of the group read so far), tp (where the value stands)

    kind: "number", "switch", "group", "pairs" (a group of pairs), "mask" (a string of binary digits), "text"."""

    def __init__(self, key, kind, names, unlisted=(), implied=(), required=False, positive=False):
        self.key, self.kind, self.required, self.positive = key, kind, required, positive
        self.names, self.known, self.implied = set(names), set(names) | set(unlisted), set(implied)
        self.n = dict(names_compared=0, values_read=0, stores=0, instances=0)
        self.mobj = set()                     # where a mask was stored

    def start(self, st):
        for k in ("role", "br", "k", "bad"):
            st.g[k] = None
        st.g["seen"] = st.g["own"] = st.g["alt"] = False
        for k in ("v", "item", "tp"):
            st.gn[k] = ZERO

    def parsing(self, st, ins=None):
        """Inside a constructor, after the file has been read into one string."""
        return st.g.get("op") == 1 and not any(c.fn.name.startswith("spf_read_preparse") for c in st.stack + ((ins,) if ins is not None else ()))

    def lost(self, st, ins):
        if st.g["seen"] and not st.g["own"] and st.g["bad"] is None:
            self.eng.report("C21", ins, "the value of %s is read but not kept" % self.key, st)

    def given(self, st, v):
        st.gn["v"] = v
        st.g["seen"], st.g["own"] = True, False
        if st.g["bad"]:
            st.gn["v"] = ZERO

    def on_event(self, st, kind, ins, **kw):
        if kind == "begin":
            st.g["role"] = st.g["br"] = st.g["k"] = None
        if kind == "ready":
            self.n["instances"] += 1
            self.lost(st, ins)
            obj = kw["ptr"].obj
            if not st.g["seen"] and self.required:
                self.eng.report("C13", ins, "set up although %s, which is documented as required, was not given" % self.key, st)
            if st.g["seen"] and st.g["bad"] is not None:
                self.n["complaints"] = self.n.get("complaints", 0) + 1
            self.eng.note("ready", (obj, st.g["seen"]))
            if self.positive and (st.g["bad"] is None or not st.g["seen"]):
                want = [(x[0], x[1]) for x in self.eng.obs.get("own", ()) if x[0]] if self.kind == "number" else [((x[0], x[1], 0), 4) for x in self.eng.obs.get("count", ())]
                for pl, size in want:
                    if pl[0] == obj and pl[2] == 0:
                        o = st.mem[obj]
                        x = self.eng.read_log(o.base, o.log, P(pl[1]), size, ("i", 8 * size), None, st.facts)
                        self.n["settings_bounded"] = self.n.get("settings_bounded", 0) + 1
                        if not isinstance(x, Poly) or not st.facts.ge(x - 1):
                            self.eng.report("C13", ins, "set up although %s may be %s" % (self.key, "empty" if self.kind != "number" else "less than one"), st)
                        elif self.required and st.facts.lower(-x) in (None,) or self.required and x.const is None and st.facts.lower(-x) != "inf" and st.facts.lower(-x) < -2 ** 24:
                            self.eng.report("C13", ins, "set up with any value of %s however large" % self.key, st)
            for x in ("k", "br", "role"):
                st.g[x] = None
        if kind in ("fprintf", "printf", "puts", "fail") and st.g.get("op") == 1:
            st.g["bad"] = True            # from here on only whether the parameter was given is followed
            st.g["own"], st.g["role"], st.g["br"] = False, None, None
        if not self.parsing(st, ins):
            return
        mine = st.g["k"] == self.key
        if kind == "token":
            r, b = st.g["role"], st.g["br"]
            if kw["first"]:
                r = "key"
            elif r == "key":
                r = "val"
            elif r == "val":
                r = "in" if b == "{" else "key"
            elif r == "in":
                r = "key" if b == "}" else "in"
            st.g["role"] = None if kw["val"] is None or st.g["bad"] else r
            st.g["br"] = None
            if not st.g["bad"] and (r == "key" or kw["val"] is None):
                st.g["k"] = None              # the next name, or the end
            if mine and (r == "val" or st.g["bad"]) and kw["val"] is not None and self.kind in ("mask", "text"):
                self.n["values_read"] += 1
                self.given(st, ZERO)
                if self.kind == "mask":
                    st.gn["tp"] = kw["ptr"].off
        elif kind == "strcmp":
            a, b = kw["a"], kw["b"]
            if a[0] == "lit":
                a, b = b, a
            if b[0] != "lit" or a[0] == "lit":
                return
            name = b[1].decode("latin1")
            if name in self.known:
                self.n["names_compared"] += 1
                if st.g["bad"] is None and st.g["role"] not in ("key",):
                    self.eng.report("C21", ins, "a word that is not at the place of a parameter name is taken for one (%s)" % {None: "after the end of the file", "val": "the value of another parameter", "in": "an item of a group"}[st.g["role"]], st)
                    st.g["bad"] = True
                    st.g["own"], st.g["role"], st.g["br"] = False, None, None
                if mine and st.g["bad"] and name != self.key:
                    st.g["k"] = None
            if mine and name in ("on", "off") and self.kind == "switch":
                self.n["values_read"] += 1
                x = ind(Bool("nd", ("streq", kw["a"], kw["b"])))
                self.given(st, x if name == "on" else ONE - x)
        elif kind == "strcpy" and self.kind == "text" and st.g["seen"] and st.g["bad"] is None and kw["dst"].obj.startswith("heap:"):
            pl = self.place(st, kw["dst"], 1)
            if mine:
                st.g["own"] = True
            self.eng.note("own" if mine else "other", (pl, 0, True) if mine else (pl, str(self.eng.m.where(ins)), st.g["k"]))
        elif kind == "number" and mine and self.kind in ("number", "group", "pairs"):
            self.n["values_read"] += 1
            if self.kind != "number":
                self.lost(st, ins)
                st.gn["item"] = st.gn["item"] + 1
            self.given(st, kw["val"])

    def on_assume(self, st, c):
        if not self.parsing(st):
            return
        for x in atoms_in(c):
            x = unwrap(x)
            if not isinstance(x, Bool):
                continue
            t = x.args[0] if x.args else None
            if x.pred == "nd" and isinstance(t, tuple) and t[0] == "streq":
                a, b = t[1], t[2]
                if a[0] == "lit":
                    a, b = b, a
                if b[0] == "lit" and b[1].decode("latin1") in {self.key} | self.implied and (st.g["role"] == "key" or st.g["bad"]):
                    if b[1].decode("latin1") in self.implied:
                        st.g["alt"] = True
                    else:
                        st.g["k"] = self.key
                        st.gn["item"] = ZERO
            elif x.pred == "eq" and isinstance(t, Poly):
                at = [a for a in t.atoms() if a.kind == "ld" and a.a[2] == 1]
                if len(at) == 1:
                    for ch in (123, 125):
                        if st.g["bad"] is None and (t - (var(at[0]) - ch)).const == 0 or st.g["bad"] is None and (t + (var(at[0]) - ch)).const == 0:
                            st.g["br"] = chr(ch)

    def on_decided(self, st, c):
        self.on_assume(st, c)

    def split(self, st, f, h):
        """States that differ in whether the value given is at least one are kept apart."""
        if st.g.get("op") != 1 or not st.g["seen"] or st.g["bad"] is not None or self.kind != "number":
            return None
        v = st.gn["v"]
        return ("+" if st.facts.ge(v - 1) else "-" if st.facts.ge(-v) else "?",)

    def on_access(self, st, p, size, ins, write):
        if write or self.kind != "mask" or p.obj not in self.mobj or st.g.get("op") != 1:
            return
        o = st.mem.get(p.obj)
        if o is None or o.size is None:
            return
        self.n["digits_used"] = self.n.get("digits_used", 0) + 1
        if not st.facts.ge(o.size - p.off - size):
            self.eng.report("C13", ins, "%s may have fewer digits than are used" % self.key, st)

    def place(self, st, p, size):
        """(object, offset, step per item) of a store, or None."""
        if p.off.const is not None:
            return (p.obj, int(p.off.const), 0) if st.gn["item"].const in (None, 0) else (p.obj, int(p.off.const), ("item", int(st.gn["item"].const)))
        for c in (size, size // 2):
            d = p.off - st.gn["item"] * c
            if d.const is not None:
                return (p.obj, int(d.const), c)
        c = [k for m, k in p.off.d.items() if m]
        return (p.obj, int(p.off.d.get((), 0)), int(c[0])) if len(c) == 1 else None

    def on_store(self, st, p, v, size, ins):
        if not self.parsing(st, ins) or not isinstance(v, Poly) or size not in (4, 8) or not p.obj.startswith("heap:"):
            return
        if not st.g["seen"] or st.g["bad"] is not None:
            return
        F = st.facts
        pl = self.place(st, p, size)
        mine = st.g["k"] == self.key
        self.n["stores"] += 1
        if self.kind == "mask":
            if mine and size == 4 and st.g.get("tkobj") is not None:
                o = st.mem.get(st.g["tkobj"].obj)
                at = None
                if o is not None and p.off.isint():
                    at = self.eng.read_log(o.base, o.log, st.gn["tp"] + p.off * P(Fraction(1, 4)), 1, ("i", 8), None, F)
                if isinstance(at, Poly):
                    w = ind(mk_cmp("ne", at - 48))
                    if resolve(v - w, F) == ZERO:
                        st.g["own"] = True
                        self.mobj.add(p.obj)
            return
        if self.kind == "text":
            return
        if mine and self.kind in ("group", "pairs") and (st.g["role"] != "in" or st.g["br"] == "}"):
            for div in (1, 2):
                if F.eq0(v * div - st.gn["item"]):
                    self.eng.note("count", (p.obj, pl[1] if pl else None, div))
        if (mine or not st.g["own"]) and F.eq0(resolve(v - st.gn["v"], F)):
            st.g["own"] = True
            self.eng.note("own", (pl, size, v.isint()) if pl else (None, str(p.off)[:60], str(ins.loc)))
        elif pl is not None and not mine:
            old = self.eng.read_log(st.mem[p.obj].base, st.mem[p.obj].log, p.off, size, ("i", 8 * size), None, F)
            if st.g["alt"] or isinstance(old, Poly) and (F.ge(-old) or F.eq0(v - old)):
                return
            self.eng.note("other", (pl, str(self.eng.m.where(ins)), st.g["k"]))

    def finish(self):
        """What was noted about the places of the values."""
        obs = self.eng.obs
        insts = {x[0] for x in obs.get("ready", ())}
        base, firsts = {}, set()
        for x in obs.get("own", ()):
            if x[0] is None or x[0][0] not in insts:
                if self.kind in ("group", "pairs") and x[0] is None:
                    self.rep("an item of %s is stored at %s, which does not follow from its number" % (self.key, x[1]))
                continue
            (o, off, step), size, isint = x
            if self.kind in ("group", "pairs"):
                c = size if self.kind == "group" else size // 2
                if isinstance(step, tuple):
                    off, step = off - c * step[1], c
                if step != c:
                    self.rep("the items of %s are %s bytes apart where they should be %d" % (self.key, step, c))
                base.setdefault((isint, size), set()).add(off)
                firsts |= {off + c, off + 2 * c} if self.kind == "pairs" else {off + c}
            elif not isinstance(step, tuple):
                firsts.add(off)
        for k, v in base.items():
            if len(v) != 1:
                self.rep("the items of %s do not go into consecutive elements in the order given (offsets %s)" % (self.key, sorted(v)))
        if self.kind in ("group", "pairs"):
            if len(base) != (1 if self.kind == "group" else 2):
                self.rep("the items of %s do not end up in one list per column" % self.key)
            if not any(x[0] in insts and x[2] == (1 if self.kind == "group" else 2) for x in obs.get("count", ())):
                self.rep("the number of items of %s is not kept" % self.key)
        if self.kind in ("number", "switch", "text") and not any(x[0] and x[0][0] in insts for x in obs.get("own", ())):
            self.rep("the value of %s is not kept in the instance" % self.key)
        for pl, where, k in obs.get("other", ()):
            if pl[0] in insts and pl[1] in firsts and not isinstance(pl[2], tuple):
                self.rep("the value of %s is overwritten with something else" % self.key, where)
        self.eng.note("firsts", (self.key, tuple(sorted(firsts))))

    def rep(self, what, where="(set-up)"):
        self.eng.reports.setdefault(("C21", where, what), [])
