"""C08: what saving does to the points of the results file and to the note of what is saved."""
import ir, mon, simjobs, simmon, ext
from expr import *
from fractions import Fraction
from joins import resolve
from rows import Loads

SNR = "SNR"


class Find(Loads, simmon.Trial):
    """First run: where the file is read to, the counters of a point, the current point."""

    def __init__(self):
        super().__init__("C10")
        self.init_loads()

    def stride(self):
        """Distance of the points of the simulation."""
        s = {s for r, s in self.pts if s}
        return s.pop() if len(s) == 1 else None

    def on_store(self, st, p, v, size, ins):
        super().on_store(st, p, v, size, ins)
        k = st.g.get("key")
        if k is not None and st.g.get("op") == 3 and p.obj != self.inst and self.what(v) == ("number", k[0]):
            self.load(st, p, v, size, k[0])


class Merge(Find):
    """g: rd (what the last look at the results file found: None, "absent", "empty", "data"), tk ("end" after the last word of it),
          mt (the point matched: None, "found", "new"), zi (columns of the new point cleared), ad (columns of the current point done),
          mv (columns moved to the free place), cov (all points with trials done), wr (how the results file was written), md, mcov (same for the marks)
       gn: ai (points of the simulation done), mn (place of the match), np (points in the file), hole (free place), sc, sd (leading points compared unequal), mk (points marked), mh (free place after several points were moved at once)"""

    G = dict(rd=None, tk=None, src=None, mt=None, zi=(), ad=(), mv=(), cov=None, wr=None, md=(), mcov=None, bad=None)
    N = ("ai", "mn", "np", "hole", "sc", "sd", "mk", "mh")

    def __init__(self, prior=None):
        super().__init__()
        self.prior, self.arrs = prior, None
        if prior is not None:       # what a first run found: where the file is read to, the counters, the current point
            self.loads, self.pts, self.cells, self.rngs = prior.loads, prior.pts, prior.cells, prior.rngs
            self.current = prior.eng.obs.get("current", ())
        self.n.update(merges=0, counters_added=0, points_inserted=0, points_copied=0, points_skipped=0, points_marked=0, files_written=0)
        self.rf = set()

    def start(self, st):
        super().start(st)
        self.clear(st)

    def clear(self, st):
        st.g.update(self.G)
        for k in self.N:
            st.gn[k] = ZERO

    def rep8(self, ins, what, st):
        self.rep("C08", ins, what, st)

    # ---- helpers
    def col(self, st, a, ix):
        """Column of the counters of the simulation that a is the item ix of."""
        S = self.stride()
        if S is None or a.kind != "ld" or a.a[2] != 4 or self.inst not in st.mem:
            return None
        c = a.a[1] - P(S) * ix
        if c.const is None:
            c = resolve(c, st.facts)
        if c.const is None:
            return None
        c = int(c.const)
        return c if self.now(st, a, c) else None

    def now(self, st, a, r, size=4, ty=("i", 32)):
        """Is a what the instance holds at that place now?"""
        o = st.mem[self.inst]
        return self.eng.read_log(o.base, o.log, a.a[1], size, ty, self.rngs.get(r), st.facts) == var(a)

    def place(self, p):
        """(key, descriptor, place) of a cell of the arrays read from the file."""
        for k, ds in self.loads.items():
            for d in ds:
                obj, off, stride, size = d
                if obj == p.obj and stride:
                    ix = (p.off - off) * P(Fraction(1, stride))
                    if ix.isint():
                        return k, d, ix
        return None

    def eq(self, st, p):
        return p.const == 0 if p.const is not None else st.facts.eq0(p)

    def ncols(self):
        return len(self.loads)

    def step(self, st):
        """The current point of the simulation is done."""
        st.gn["ai"] = st.gn["ai"] + 1
        st.g["ad"], st.g["mt"], st.g["zi"], st.g["cov"] = (), None, (), None
        st.gn["sc"] = st.gn["sd"] = st.gn["mn"] = ZERO

    def snr_atom(self, st, a, ix):
        """Is a the SNR value of point ix of the simulation?"""
        if a.kind != "ld" or a.a[2] != 8 or self.inst not in st.mem:
            return False
        return any(self.eq(st, a.a[1] - r - P(s) * ix) and self.now(st, a, r, 8, ("f", 64)) for r, s in self.array_cells("EbNo_values", 8))

    def file_index(self, st, a):
        """Place of an SNR value of the file."""
        if a.kind != "ld" or a.a[2] != 8:
            return None
        for d in self.loads.get(SNR, ()):
            if d[2] and d[0] in st.mem:
                ix = (a.a[1] - d[1]) * P(Fraction(1, d[2]))
                for j in (ix, st.gn["sc"], st.gn["mn"]):
                    if j.isint() and self.loaded(st, d, j) == var(a):
                        return j
        return None

    def arrays(self, obj):
        """Arrays of integers or structures in the instance, by its type."""
        T = self.eng.m.types
        if self.arrs is None:
            out = []

            def walk(t, off):
                if t[0] == "arr":
                    if t[2][0] in ("st", "lit") or t[2] == ("i", 32):
                        out.append((off, off + T.size(t)))
                elif t[0] in ("st", "lit"):
                    for i, f in enumerate(T.fields(t)):
                        walk(f, off + T.field_off(t, i)[0])
            n = obj.size.const
            for name in sorted(T.structs):
                if n is not None and T.structs[name] and T.size(("st", name)) == n and not out:
                    walk(("st", name), 0)
            self.arrs = out
        return self.arrs

    def anything(self, st):
        """Saving is looked at for any contents of the counters."""
        for lo, hi in self.arrays(st.mem[self.inst]):
            self.eng.push(st, self.inst, ("hr", P(lo), P(hi), LogKey(("counters", lo))))

    # ---- conditions
    def on_decided(self, st, c):
        if st.g.get("op") == 3:
            self.cond(st, c)

    def on_assume(self, st, c):
        k = st.g.get("key")
        super().on_assume(st, c)
        if st.g.get("op") != 3:
            return
        if st.g.get("key") != k and st.g["key"] and st.g["key"][0] == SNR:
            st.gn["np"] = st.gn["hole"] = ZERO
        self.cond(st, c)

    def cond(self, st, c):
        for x in simmon.atoms_in(c):
            x = simmon.unwrap(x)
            if not isinstance(x, Bool) or x.pred not in ("eq", "ne", "ge", "gt") or not isinstance(x.args[0], Poly):
                continue
            p = x.args[0]
            at = [a for a in p.atoms() if a.kind == "ld"]
            if x.pred in ("eq", "ne") and len(at) == 2 and len(p.d) == 2:
                self.compared(st, x.pred == "eq", p, at)
            if p.atoms():
                self.limits(st)

    def compared(self, st, equal, p, at):
        a, b = at
        if p not in (var(a) - var(b), var(b) - var(a)):
            return
        if a.a[2] == 8:
            for x, y in ((a, b), (b, a)):
                if not self.snr_atom(st, y, st.gn["ai"]):
                    continue
                j = self.file_index(st, x)
                if j is None:
                    continue
                if equal:
                    st.g["mt"], st.gn["mn"] = "found", j
                elif self.eq(st, j - st.gn["sc"]):
                    st.gn["sc"] = st.gn["sc"] + 1
                return
        elif equal and a.a[2] == 4 and not st.g["ad"] and st.g["wr"] is None:
            x, y = self.col(st, a, st.gn["ai"]), self.col(st, b, st.gn["ai"])
            if x is not None and y is not None and x != y:
                self.n["points_skipped"] += 1
                self.eng.note("skip", (min(x, y), max(x, y)))
                self.step(st)

    def limits(self, st):
        """Have all points of the simulation that may have trials been dealt with?"""
        for g, n in (("cov", "ai"), ("mcov", "mk")):
            if st.g[g] is None and st.gn[n].const != 0 and self.inst in st.mem:
                st.g[g] = self.beyond(st, st.gn[n])

    def beyond(self, st, ai):
        for off in self.scalar_cells("EbNo_values"):
            v = self.cell(st, off)
            if isinstance(v, Poly) and st.facts.ge(ai - v):
                return ("all", off)
        for off in self.curs(st):
            v = self.cell(st, off)
            if isinstance(v, Poly) and st.facts.ge(ai - v - 1):
                return ("current", off)
        return None

    def curs(self, st):
        """Cells that may hold the number of the current point (see C11)."""
        cur = None
        for c, w in self.current if self.prior else self.eng.obs.get("current", ()):
            cur = set(c) if cur is None else cur & set(c)
        return sorted(cur) if cur is not None else self.int_cells()

    def split(self, st, f, h):
        if st.g.get("op") != 3 or self.inst not in st.mem:
            return super().split(st, f, h)
        out = ()
        if st.g["wr"] is None and st.g["rd"] == "data":     # a variable that is negative where the file was found to be wrong
            b = f.blocks.get(h)
            out += tuple(isinstance(v, Poly) and v.const is not None and v.const < 0 for v in (st.env().get(i.res) for i in (b.phis if b else ())))
        for n in self.scalar_cells("EbNo_values"):
            v = self.cell(st, n)
            for off in self.curs(st):
                x = self.cell(st, off)
                if off != n and isinstance(v, Poly) and isinstance(x, Poly):
                    out += ("<" if st.facts.ge(v - x - 1) else ">" if st.facts.ge(x - v) else "?",)
        return out

    def on_arrival(self, st, f, h, back):
        super().on_arrival(st, f, h, back)
        if st.g.get("op") == 3 and not back and st.gn["sc"].const != 0:
            st.gn["sd"], st.gn["sc"] = st.gn["sc"], ZERO

    # ---- files
    def on_event(self, st, kind, ins, **kw):
        super().on_event(st, kind, ins, **kw)
        op = st.g.get("op")
        if kind == "begin":
            self.clear(st)
            if kw["opn"] == 3 and self.inst in st.mem:
                self.anything(st)
            return
        if kind == "end":
            if kw["opn"] == 3:
                self.ended(st, kw["rc"])
            self.clear(st)
            return
        if op != 3:
            return
        if kind in ("fprintf", "printf", "puts") and st.g["tk"] == "words":
            st.g["bad"] = True                # a complaint about the file: kept apart
        if kind == "fopen" and not simmon.is_flag(kw["path"]):
            if kw["mode"] == "r":
                st.g["rd"] = "data" if kw["ok"] else "absent"
                st.g["tk"] = None
            else:
                if kw["ok"]:
                    self.writes(st, ins)
                st.g["wr"] = "open" if kw["ok"] else None
        elif kind == "fread0" and st.g["rd"] == "data" and st.g["wr"] is None:
            st.g["rd"] = "empty"
        elif kind == "token":
            st.g["tk"] = "end" if kw["val"] is None else "words"
        elif kind == "fclose" and kw.get("fk") is not None and st.g["wr"] == "open" and self.writer(st, kw["ptr"]):
            st.g["wr"] = "good" if kw["ok"] and kw["fk"] == "good" else "bad"

    def writer(self, st, p):
        o = st.mem.get(p.obj)
        return o is not None and o.aux and o.aux[0] == "w"

    def parsed(self, st):
        return st.g["tk"] == "end" and st.g["rd"] in ("data", "empty")

    def writes(self, st, ins):
        self.n["files_written"] += 1
        if not self.parsed(st) and st.g["rd"] not in ("absent", "empty"):
            self.rep8(ins, "the results file may be overwritten although it was not read", st)
        if st.g["ad"]:
            self.rep8(ins, "only some counters of a point are saved", st)
        if st.g["mv"]:
            self.rep8(ins, "only some columns of a point are moved", st)
        if st.g["cov"] is None and st.gn["ai"].const != 0:
            self.limits(st)
        cov = st.g["cov"]
        if cov is None:
            for off in self.curs(st):
                v = self.cell(st, off)
                if isinstance(v, Poly) and st.facts.ge(st.gn["ai"] - v - 1):
                    cov = ("current", off)
            for off in self.scalar_cells("EbNo_values"):
                v = self.cell(st, off)
                if isinstance(v, Poly) and st.facts.ge(st.gn["ai"] - v):
                    cov = ("all", off)
        self.eng.note("coverage", (cov, self.eng.m.where(ins)))

    def ended(self, st, rc):
        if st.facts.entails(mk_cmp("ne", rc)):
            return
        if st.g["wr"] != "good":
            self.rep8(None, "saving may succeed although the results file was not completely written", st)
            return
        if st.g["md"]:
            self.rep8(None, "only some counters of a point are marked as saved", st)
        if st.g["mcov"] is None:
            st.g["mcov"] = self.beyond(st, st.gn["mk"])
        self.eng.note("marked", (st.g["mcov"], "?"))

    # ---- stores
    def on_store(self, st, p, v, size, ins):
        simmon.Trial.on_store(self, st, p, v, size, ins)
        if st.g.get("op") != 3:
            return
        k = st.g.get("key")
        if p.obj == self.inst:
            self.mark(st, p, v, size, ins)
            return
        if k is not None and self.what(v) == ("number", k[0]):
            self.load(st, p, v, size, k[0])
            q = self.place(p)
            if q and k[0] == SNR:
                st.gn["np"] = st.gn["hole"] = q[2] + 1
            return
        q = self.place(p)
        if q is None or size not in (4, 8):
            if size is None or any(d[0] == p.obj for ds in self.loads.values() for d in ds):
                self.rep8(ins, "points of the results file are overwritten", st)
            return
        key, d, ix = q
        if st.g["wr"] is not None:
            self.rep8(ins, "points change after the results file was opened for writing", st)
        elif self.parsed(st):
            self.merge(st, key, d, ix, v, ins)
        else:
            self.copy(st, key, d, ix, v, ins)

    def columns(self, d):
        """Columns of the points in the array of d: key -> descriptor."""
        return {k: x for k, ds in self.loads.items() for x in ds if x[0] == d[0] and x[2] == d[2] and d[1] <= x[1] < d[1] + d[2]}

    def on_copy(self, st, p, s, n, ins):
        """Several points copied at once."""
        if st.g.get("op") != 3 or not isinstance(s, Ptr):
            return False
        S = self.stride()
        if p.obj == self.inst:
            if s.obj != self.inst or S is None or st.g["md"]:
                return False
            num, mk = n * P(Fraction(1, S)), st.gn["mk"]
            a, b = s.off - P(S) * mk, p.off - P(S) * mk
            cols = [r for r, x in self.pts if x and a.const is not None and a.const <= r < a.const + S]
            if not num.isint() or a.const is None or b.const is None or len(cols) != len({r for r, x in self.pts if x}):
                return False
            if st.g["wr"] != "good":
                self.rep8(ins, "trials are marked as saved although the results file may not be completely written", st)
            for r in cols:
                self.n["points_marked"] += 1
                self.eng.note("mark", (int(b.const - a.const) + r, r))
            st.gn["mk"], st.g["mcov"] = mk + num, None
            return True
        q = self.place(p)
        if q is None or st.g["wr"] is not None:
            return False
        key, d, ix = q
        num, cols = n * P(Fraction(1, d[2])), self.columns(d)
        if not num.isint():
            return False
        if self.parsed(st):
            if s.obj != p.obj or not self.eq(st, p.off - s.off - d[2]) or not self.eq(st, ix + num - st.gn["hole"] - 1) or st.g["mt"] is not None:
                return False
            if st.g["mv"] and not self.eq(st, st.gn["mh"] - ix + 1):
                return False
            st.gn["mh"] = ix - 1
            st.g["mv"] = tuple(sorted(set(st.g["mv"]) | set(cols)))
            if len(st.g["mv"]) >= self.ncols():
                st.gn["hole"], st.gn["mh"], st.g["mv"] = st.gn["mh"], ZERO, ()
            return True
        if s.obj != self.inst or not self.eq(st, ix - st.gn["ai"]):
            return False
        ai = st.gn["ai"]
        if key == SNR:
            if not any(x == 8 and self.eq(st, s.off - r - P(x) * ai) for r, x in self.array_cells("EbNo_values", 8)):
                return False
        else:
            a = s.off - P(S or 1) * ai
            if S != d[2] or a.const is None:
                return False
            for k, x in cols.items():
                self.eng.note("copy", (k, int(a.const) + x[1] - d[1]))
        if st.g["ad"] and not self.eq(st, st.gn["mh"] - num):
            return False
        self.n["points_copied"] += 1
        st.gn["mh"] = num
        st.g["ad"] = tuple(sorted(set(st.g["ad"]) | set(cols)))
        if len(st.g["ad"]) >= self.ncols():
            self.step(st)
            st.gn["ai"], st.gn["mh"] = ai + num, ZERO
        return True

    def copy(self, st, key, d, ix, v, ins):
        """There is no results file: the points of the simulation are taken as they are."""
        self.n["points_copied"] += 1
        ai = st.gn["ai"]
        at = next(iter(v.atoms())) if isinstance(v, Poly) and len(v.atoms()) == 1 else None
        c = None
        if at is not None and v == var(at):
            c = SNR if d[3] == 8 and self.snr_atom(st, at, ai) else self.col(st, at, ai)
        if c is None or not self.eq(st, ix - ai) or (c == SNR) != (key == SNR):
            self.rep8(ins, "without a results file, %s of a point is not that of the simulation: %s" % (key, v), st)
            return
        if key != SNR:
            self.eng.note("copy", (key, c))
        self.done(st, key, ins)

    def done(self, st, key, ins):
        if key in st.g["ad"]:
            self.rep8(ins, "%s of a point is counted twice" % key, st)
        st.g["ad"] = tuple(sorted(set(st.g["ad"]) | {key}))
        if len(st.g["ad"]) >= self.ncols():
            self.step(st)

    def merge(self, st, key, d, ix, v, ins):
        self.n["merges"] += 1
        ai, hole, np = st.gn["ai"], st.gn["hole"], st.gn["np"]
        at = next(iter(v.atoms())) if isinstance(v, Poly) and len(v.atoms()) == 1 else None
        plain = at is not None and v == var(at)
        # a column moved to the free place
        if plain and self.eq(st, ix - hole) and self.loaded(st, d, ix - 1) == v and st.g["mt"] is None:
            st.g["mv"] = tuple(sorted(set(st.g["mv"]) | {key}))
            if len(st.g["mv"]) >= self.ncols():
                st.gn["hole"], st.g["mv"] = hole - 1, ()
            return
        if key == SNR:
            if plain and self.snr_atom(st, at, ai) and self.eq(st, ix - hole) and not st.g["mv"] and st.g["mt"] is None:
                self.n["points_inserted"] += 1
                if not (st.facts.ge(st.gn["sc"] - np) or st.facts.ge(st.gn["sd"] - np)):
                    self.rep8(ins, "a point is added although the file may have its SNR value already", st)
                st.g["mt"], st.gn["mn"] = "new", ix
                st.gn["np"] = np + 1
                st.gn["hole"] = np + 1
                return
            self.rep8(ins, "the SNR value of a point of the file is overwritten: %s" % v, st)
            return
        fresh_at = st.g["mt"] == "new" and self.eq(st, ix - st.gn["mn"]) or st.g["mt"] is None and self.eq(st, ix - hole)
        if fresh_at and isinstance(v, Poly) and v.const == 0:
            st.g["zi"] = tuple(sorted(set(st.g["zi"]) | {key}))
            return
        if st.g["mt"] is None or not self.eq(st, ix - st.gn["mn"]):
            self.rep8(ins, "%s of a point changes that was not found by its SNR value: %s" % (key, v), st)
            return
        self.n["counters_added"] += 1
        old = self.loaded(st, d, ix)
        if st.g["mt"] == "new" and key not in st.g["zi"]:
            old = ZERO
        x = v - old if isinstance(v, Poly) and isinstance(old, Poly) else None
        if x is not None:
            for a in x.atoms():
                for b in x.atoms():
                    if a is not b and x == var(a) - var(b):
                        i, j = self.col(st, a, ai), self.col(st, b, ai)
                        if i is not None and j is not None:
                            self.eng.note("add", (key, i, j))
                            self.done(st, key, ins)
                            if len(st.g["ad"]) == self.ncols() - 1:
                                self.step(st)
                            return
        self.rep8(ins, "what is added to %s is not what was simulated since the last save: %s" % (key, x if x is not None else v), st)

    def mark(self, st, p, v, size, ins):
        S = self.stride()
        mk = st.gn["mk"]
        c = p.off - P(S or 1) * mk
        if c.const is None:
            c = resolve(c, st.facts)
        at = next(iter(v.atoms())) if isinstance(v, Poly) and len(v.atoms()) == 1 and size == 4 else None
        a = self.col(st, at, mk) if at is not None and v == var(at) else None
        if S is None:
            return
        if a is None or c.const is None:
            self.rep8(ins, "saving changes the simulation: %s" % v, st)
            return
        self.n["points_marked"] += 1
        if st.g["wr"] != "good":
            self.rep8(ins, "trials are marked as saved although the results file may not be completely written", st)
        self.eng.note("mark", (int(c.const), a))
        st.g["md"] = tuple(sorted(set(st.g["md"]) | {a}))
        st.g["mcov"] = None
        if len(st.g["md"]) >= len({r for r, s in self.pts if s}):
            st.gn["mk"], st.g["md"] = mk + 1, ()

    # ---- what it amounts to
    def finish(self):
        super().finish()
        O = self.eng.obs
        say = lambda w, what: self.eng.reports.setdefault(("C08", w, what), [])
        roles = dict(next(iter(O.get("roles", ((),)))))
        saved = {}
        for b, a in sorted(O.get("mark", ())):
            if saved.setdefault(a, b) != b:
                say("?", "a counter is marked as saved in two places")
            if b in roles.values():
                say("?", "saving changes a counter of the simulation")
        if len(set(saved.values())) != len(saved):
            say("?", "two counters are marked as saved in one place")
        for r, a in sorted(roles.items()):
            if a is not None and a not in saved:
                say("?", "the counter of %s is not marked as saved" % r)
        for x, y in sorted(O.get("skip", ())):
            t = roles.get("trials")
            if t is not None and {x, y} != {t, saved.get(t)}:
                say("?", "points are skipped although they have trials that are not saved")
        col = {}
        for key, a in sorted(O.get("copy", ())):
            col.setdefault(key, set()).add(a)
        for key, a, b in sorted(O.get("add", ())):
            col.setdefault(key, set()).add(a)
            if saved.get(a) != b:
                say("?", "what is added to %s is the difference of different counters" % key)
        for key, cs in sorted(col.items()):
            if len(cs) != 1:
                say("?", "the counter %s gets different counters of the simulation" % key)
        if len(set().union(*col.values())) != len(col) if col else False:
            say("?", "two counters of the file get the same counter of the simulation")
        num = set(self.scalar_cells("EbNo_values"))
        cur = None
        for c, w in O.get("current", ()):
            cur = set(c) if cur is None else cur & set(c)
        for cov, w in sorted(O.get("coverage", ()), key=str):
            if cov is None or cov[0] == "current" and cov[1] not in (cur or ()):
                say(w, "not all points with trials may be saved")
        for cov, w in sorted(O.get("marked", ()), key=str):
            if cov is None or cov[0] == "current" and cov[1] not in (cur or ()):
                say(w, "not all saved trials may be marked as saved")
        for rng, res, stride, tag, w in sorted(O.get("store", ()), key=str):
            if res in saved.values():
                say(w, "a run changes what is marked as saved")


def run(prop):
    def mk():
        return [mon.Harness(), mon.CodecContract(), Find()]

    def then(ms):
        if not ms[-1].loads.get(SNR) or len(ms[-1].loads) < 2 or ms[-1].stride() is None:
            raise ir.AnalysisBroken("the points of the results file or of the simulation were not found")
        return [mon.Harness(), mon.CodecContract(), Merge(ms[-1])]
    rs = simjobs.run([("sim_driver", p, mk, dict(then=then)) for p in ir.PROGRAMS])
    return simjobs.summary(rs, prop, ["counters_added", "points_inserted", "points_copied", "points_skipped", "points_marked", "files_written"])
