"""C09: what is written under which name, and what is read back under it."""
import re
import ir, mon, simjobs, simmon, ext
from expr import *
from fractions import Fraction

CONV = re.compile(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcsp%?])")
WS = " \t\r\n"
# column of a table or name of a row -> rate
RATES = {"BER": "BER", "ep_bit": "BER", "WER": "WER", "ep_bl": "WER", "ERR": "ERR", "MLER": "MLER", "epml_bl": "MLER", "ML": "MLER", "SNR": "SNR"}
# rate -> (counter of errors, counter of trials, per information bit)
WANT = {"BER": ("bit errors", "trials", True), "WER": ("block errors", "trials", False), "ERR": ("erasures", "trials", False), "MLER": ("ML errors", "ML trials", False)}
START = ("", "", None, (), 0, "", False, 0)


class Loads:
    """Where the numbers read from a results file are kept: key -> {(object, offset, stride, size)}."""

    def init_loads(self):
        self.loads, self.counts = {}, {}

    def on_assume(self, st, c):
        """Values of a results file are numbers: whatever text is found equal is the name of the next row."""
        k = st.g.get("key")
        if k is not None and st.g.get("op") in (3, 10):
            st.g["key"] = None
            super().on_assume(st, c)
            if st.g["key"] is None:
                st.g["key"] = k
        else:
            super().on_assume(st, c)

    def load(self, st, p, v, size, key):
        what = self.what(v)
        off, stride = P(p.off.d.get((), 0)), 0
        if p.off.const is None:
            for m, c in p.off.d.items():
                if m:
                    stride = int(c) if stride == 0 else None
        if stride is None:
            return
        d = (p.obj, int(off.const), stride, size)
        if what == ("number", key):
            self.loads.setdefault(key, set()).add(d)
        elif stride == 0 and size == 4:
            self.counts.setdefault(key, set()).add(d)

    def loaded(self, st, d, ix):
        """The number in a cell that numbers are loaded to."""
        obj, off, stride, size = d
        o = st.mem.get(obj)
        if o is None or o.status == "freed":
            return None
        return self.eng.read_log(o.base, o.log, P(off) + P(stride) * ix, size, ("f", 64) if size == 8 else ("i", 32), None, st.facts)

    def origins(self, a, seen):
        """Names the value of a may have been read under; "?" for anything else that is not a constant."""
        if a in seen:
            return set()
        seen.add(a)
        if a.kind == "sym" and a.meta and "origin" in a.meta:
            return {a.meta["origin"]}
        c = self.eng.comes.get(a)
        if not c or len(c) >= 40:
            return {"?"}
        out = set()
        for v in c:
            if v.const is None:
                at = v.atoms()
                out |= self.origins(next(iter(at)), seen) if len(at) == 1 and v == var(next(iter(at))) else {"?"}
        return out

    def keys_of(self, st, a, ix):
        """Names under which the number a was read."""
        o = self.origins(a, set())
        if len(o) == 1 and o != {"?"}:
            return sorted(map(str, o))
        return sorted(k for k, ds in self.loads.items() for d in ds if self.loaded(st, d, ix) == var(a))


class Rows(Loads, simmon.Trial):
    """Rows and tables of the results file (op 3) and of the results shown (op 5).

    g: lx = (mode, word begun, key, columns or words of the line, column, printed so far on this line, first row done, length of the row)
    gn: cnt (values so far in the group, lines so far in the table), len (values of the first row)"""

    def __init__(self, prop=None):
        super().__init__("C10")
        self.init_loads()
        self.n.update(rows_written=0, values_written=0, rates_written=0, values_matched=0)

    def start(self, st):
        super().start(st)
        st.g["lx"] = START
        st.gn["cnt"] = st.gn["len"] = ZERO

    def on_store(self, st, p, v, size, ins):
        super().on_store(st, p, v, size, ins)
        k = st.g.get("key")
        if k is not None and st.g.get("op") == 3 and p.obj != self.inst:
            self.load(st, p, v, size, k[0])

    # ---- the text written
    def on_event(self, st, kind, ins, **kw):
        super().on_event(st, kind, ins, **kw)
        op = st.g.get("op")
        if kind in ("begin", "end") or kind == "fopen" and op == 3:
            st.g["lx"] = START if kind != "begin" or kw["opn"] != 5 else ("c",) + START[1:]
            st.gn["cnt"] = st.gn["len"] = ZERO
        elif kind == "fprintf" and op == 3 and not (self.flag(st, kw["ptr"])):
            self.text(st, ins, kw["fmt"], kw["args"])
        elif kind == "sprintf" and op == 5:
            self.text(st, ins, kw["fmt"], kw["args"])

    def flag(self, st, p):
        o = st.mem.get(p.obj) if isinstance(p, Ptr) else None
        return o is not None and simmon.is_flag(o.aux[0] if o.aux else None)

    def text(self, st, ins, fmt, args):
        if fmt is None or b"%?" == fmt:
            self.rep("C09", ins, "the text written is not known", st)
            return
        pos, i = 0, 0
        for m in CONV.finditer(fmt):
            self.chars(st, ins, fmt[pos:m.start()].decode("latin1"))
            pos = m.end()
            c = m.group(5).decode()
            if c == "%":
                self.chars(st, ins, "%")
                continue
            v = args[i] if i < len(args) else None
            i += 1
            if c in "sc":
                t = ext.literal(self.eng, st, v) if c == "s" else bytes([int(v.const) & 255]) if isinstance(v, Poly) and v.const is not None else None
                self.chars(st, ins, "?" if t is None else t.decode("latin1"))
            else:
                self.value(st, ins, m, v)
        self.chars(st, ins, fmt[pos:].decode("latin1"))

    def chars(self, st, ins, s):
        for ch in s:
            mode, word, key, cols, ci, line, first, _ = st.g["lx"]
            if mode == "c":
                if ch == "\n":
                    ws = tuple(line.split()) + ((word,) if word else ())
                    if ci == 0 and any(w in RATES for w in ws):
                        cols = ws
                        st.gn["cnt"] = ZERO
                    elif ci:
                        st.gn["cnt"] = st.gn["cnt"] + 1
                    line, word, ci = "", "", 0
                    mode = "c" if st.g.get("op") == 5 else ""
                elif ch in WS:
                    line, word = line + " " + word, ""
                else:
                    word += ch
            elif mode == "g":
                if ch == "}":
                    self.row(st, ins, key, first)
                    mode, key, first = "", None, True
            elif ch == "%":
                mode, word = "c", ""
            elif ch == "{":
                mode, key, word = "g", word or key, ""
                st.gn["cnt"] = ZERO
            elif ch in WS:
                if word:
                    key, word = word, ""
            else:
                word += ch
            st.g["lx"] = (mode, word, key, cols, ci, line, first, 0)

    def row(self, st, ins, key, first):
        self.n["rows_written"] += 1
        self.eng.note("wrote", (key, self.eng.m.where(ins)))
        if not first:
            st.gn["len"] = st.gn["cnt"]
        elif not st.facts.eq0(st.gn["cnt"] - st.gn["len"]):
            self.rep("C09", ins, "the row %s may have another number of values than the first row" % key, st)

    def value(self, st, ins, m, v):
        mode, word, key, cols, ci, line, first, _ = st.g["lx"]
        if mode == "g":
            self.check(st, ins, key, v, st.gn["cnt"], m, True)
            st.gn["cnt"] = st.gn["cnt"] + 1
        elif mode == "c":
            if ci == 0 and not cols and st.g.get("op") == 5 and (line or word):
                cols = ()
            if ci < len(cols) and cols[ci] in RATES:
                self.check(st, ins, cols[ci], v, st.gn["cnt"], m, False)
            st.g["lx"] = (mode, "", key, cols, ci + 1, "", first, 0)
        else:
            if word or key:
                self.scalar(st, ins, word or key, v, m)
            st.g["lx"] = (mode, "", None, cols, ci, line, first, 0)

    def scalar(self, st, ins, key, v, m):
        what = [k for k in ("code_n", "code_k") if isinstance(v, Poly) and st.facts.eq0(v - st.gn[k])]
        self.eng.note("scalar", (key, tuple(what), m.group(5).decode() in "diu", self.eng.m.where(ins)))

    def inst_cells(self, st, a, ix, size):
        if self.inst not in st.mem:
            return ()
        cs = sorted(self.pts) if size == 4 else self.array_cells("EbNo_values", 8) + self.array_cells("SNR_val_trn", 8)
        return tuple(sorted({r for r, s in cs if s and self.item(st, r, s, ix, size, ("f", 64) if size == 8 else None) == var(a)}))

    def sources(self, st, v, ix):
        """atom -> (names in the file just read, cells of the instance)"""
        out = {}
        for a in v.atoms():
            out[a] = (tuple(self.keys_of(st, a, ix)), self.inst_cells(st, a, ix, 4) + self.inst_cells(st, a, ix, 8))
        return out

    def check(self, st, ins, key, v, ix, m, row):
        self.n["values_written"] += 1
        w = self.eng.m.where(ins)
        conv, prec = m.group(5).decode(), int(m.group(3) or 6)
        if not isinstance(v, Poly):
            self.rep("C09", ins, "what is written as %s is not a number of the simulation" % key, st)
            return
        src = self.sources(st, v, ix)
        role = RATES.get(key)
        if role is None or role == "SNR":
            f, i = ((), ())
            if len(src) == 1 and v == var(next(iter(src))):
                f, i = next(iter(src.values()))
            ok = conv in "diu" if role is None else not row or conv in "gG" and prec >= 15 or conv in "eE" and prec >= 14 or conv in "fF" and prec >= 15 or conv in "aA"
            self.eng.note("cellrow", (key, f, i, ok, row, w))
            if f or i:
                self.n["values_matched"] += 1
            return
        self.n["rates_written"] += 1
        if v.const == 0:
            # no trials
            none = set()
            for k, ds in self.loads.items():
                for d in ds:
                    x = self.loaded(st, d, ix) if d[3] == 4 else None
                    if isinstance(x, Poly) and st.facts.ge(-x):
                        none.add(k)
            inst = set()
            for r, s in self.pts:
                x = self.item(st, r, s, ix)
                if isinstance(x, Poly) and st.facts.ge(-x):
                    inst.add(r)
            self.eng.note("zero", (role, tuple(sorted(none)), tuple(sorted(inst)), w))
            return
        out = set()
        for a, (f, i) in src.items():
            for b, (g, j) in src.items():
                q = var(a) * inv(var(b))
                for bits in (False, True):
                    if v == (q * inv(st.gn["code_k"]) if bits else q):
                        out |= {("f", x, y, bits) for x in f for y in g} | {("i", x, y, bits) for x in i for y in j}
                        if a is b:
                            continue
        self.eng.note("rate", (role, tuple(sorted(out, key=str)), "" if out else str(v)[:100], w))
        if out:
            self.n["values_matched"] += 1

    # ---- what it amounts to
    def finish(self):
        super().finish()
        O = self.eng.obs
        say = lambda w, what: self.eng.reports.setdefault(("C09", w, what), [])
        roles = dict(next(iter(O.get("roles", ((),)))))
        rows, bad = {}, set()
        for key, f, i, ok, row, w in sorted(O.get("cellrow", ()), key=str):
            if not ok:
                say(w, "%s is written with too few digits to be recognised" % key if key in RATES else "the counter %s is not written as an integer" % key)
            if RATES.get(key) == "SNR":
                if not i and key not in f:
                    say(w, "%s is not the SNR value of the point" % key)
                continue
            if i:
                rows[key] = (set(i) if key not in rows else rows[key][0] & set(i), w)
            elif key not in f:
                say(w, "what is written as %s is not what was read under that name: %s" % (key, ", ".join(f) or "not a counter of the point"))
        name = {}
        for role, cell in sorted(roles.items()):
            ks = sorted(k for k, (cs, w) in rows.items() if cell in cs)
            if len(ks) == 1 and ks[0] in self.loads:
                name[role] = ks[0]
            elif not ks:
                say("?", "the counter of %s is not written to the results file" % role)
            elif len(ks) == 1:
                say(rows[ks[0]][1], "the counter of %s is written as %s, but not read back under that name" % (role, ks[0]))
            else:
                say(rows[ks[1]][1], "the counter of %s is written under several names: %s" % (role, ", ".join(ks)))
        for k, (cs, w) in sorted(rows.items()):
            if not cs & set(roles.values()):
                say(w, "what is written as %s is no counter of the point" % k)
        for role, out, v, w in sorted(O.get("rate", ()), key=str):
            if role == "SNR":
                continue
            e, t, bits = WANT[role]
            if not any(k == "i" and x == roles.get(e) and y == roles.get(t) and b == bits or k == "f" and x == name.get(e) and y == name.get(t) and b == bits for k, x, y, b in out):
                say(w, "the rate %s is not %s / %s%s: %s" % (role, e, t, " / information length" if bits else "", v))
        for role, f, i, w in sorted(O.get("zero", ()), key=str):
            t = WANT[role][1] if role in WANT else None
            e = WANT[role][0] if role in WANT else None
            if not ({name.get(t), name.get(e)} & set(f) or {roles.get(t), roles.get(e)} & set(i)):
                say(w, "the rate %s is written as 0 although there may be errors" % role)
        sc = {}
        for key, what, ok, w in sorted(O.get("scalar", ()), key=str):
            for k in what:
                sc.setdefault(k, set()).add(key)
            if not what or not ok:
                say(w, "%s is not a length of the code" % key)
        for k in ("code_n", "code_k"):
            if len(sc.get(k, ())) == 1:
                name[k] = next(iter(sc[k]))
            else:
                say("?", "%s is not written under one name" % k)
        self.eng.note("names", tuple(sorted(name.items())))


class MexRows(Loads, simmon.Keys):
    """The structure loaded from a results file: which field gets which numbers."""

    def __init__(self):
        super().__init__()
        self.init_loads()
        self.n = dict(fields=0, field_values=0)
        self.names = None

    def on_store(self, st, p, v, size, ins):
        super().on_store(st, p, v, size, ins)
        if st.g.get("op") != 10:
            return
        k = st.g.get("key")
        if p.obj.startswith("mx:"):
            if isinstance(v, Poly) and size == 8:
                self.put(st, p.obj, v, p.off * P(Fraction(1, 8)), ins)
        elif k is not None:
            self.load(st, p, v, size, k[0])

    def split(self, st, f, h):
        """States in which a row is known to be empty are kept apart once the text is read."""
        if not any(o.startswith("mx:") for o in st.mem):
            return None
        return tuple(sorted(k for k, ds in self.counts.items() for d in ds for x in [self.loaded(st, d, ZERO)] if isinstance(x, Poly) and st.facts.ge(-x)))

    def on_event(self, st, kind, ins, **kw):
        super().on_event(st, kind, ins, **kw)
        w = self.eng.m.where(ins) if ins is not None else "?"
        if kind == "mxfields":
            for i, n in enumerate(kw["names"]):
                self.eng.note("mxname", (i, n))
        elif kind == "mxset":
            self.n["fields"] += 1
            v = kw["val"]
            self.eng.note("mxset", (kw["field"], v.obj if isinstance(v, Ptr) else None, w))

    def put(self, st, obj, v, ix, ins):
        self.n["field_values"] += 1
        w = self.eng.m.where(ins)
        src = {a: self.keys_of(st, a, ix) for a in v.atoms()}
        out = set()
        if v.const == 0:
            for k, ds in self.loads.items():
                for d in ds:
                    x = self.loaded(st, d, ix) if d[3] == 4 else None
                    if isinstance(x, Poly) and st.facts.ge(-x):
                        out.add(("zero", k))
            for k, ds in self.counts.items():
                for d in ds:
                    x = self.loaded(st, d, ix)
                    if isinstance(x, Poly) and st.facts.ge(-x):
                        out.add(("zero", k))
        for a, ks in src.items():
            if v == var(a):
                out |= {("is", k) for k in ks}
            for b, ls in src.items():
                q = var(a) * inv(var(b))
                if v == q:
                    out |= {("rate", x, y, None) for x in ks for y in ls}
                for c, ms in src.items():
                    if v == q * inv(var(c)):
                        out |= {("rate", x, y, z) for x in ks for y in ls for z in ms}
        self.eng.note("mxval", (obj, tuple(sorted(out, key=str)), str(v)[:80] if not out else "", w))


FIELDS = {"n": "code_n", "k": "code_k", "EbNo": "SNR", "BER": "BER", "WER": "WER", "ERR": "ERR", "MLER": "MLER"}


def loader(obs, name):
    """Violations of the loader, given the names the counters are written under."""
    import ast
    bad = []
    O = {k: [ast.literal_eval(t) for t in v] for k, v in obs.items() if k in ("mxname", "mxset", "mxval")}
    names = {}
    for i, n in O.get("mxname", ()):
        names.setdefault(i, set()).add(n)
    objs = {}
    for f, o, w in O.get("mxset", ()):
        for n in ({f} if isinstance(f, str) else names.get(f, ())):
            objs.setdefault(n, set()).add((o, w))
    for f, what in FIELDS.items():
        if f not in objs:
            bad.append(("?", "the field %s is not set" % f))
        for o, w in sorted(objs.get(f, ()), key=str):
            vals = [x for x in O.get("mxval", ()) if x[0] == o]
            if not vals:
                bad.append((w, "the values of the field %s are not set" % f))
            good = 0
            for _, out, v, w2 in vals:
                if what in WANT:
                    e, t, bits = WANT[what]
                    if ("rate", name.get(e), name.get(t), name.get("code_k") if bits else None) in out:
                        good += 1
                    elif not {("zero", name.get(e)), ("zero", name.get(t))} & set(out):
                        bad.append((w2, "the field %s is not %s / %s%s: %s" % (f, e, t, " / information length" if bits else "", list(out) or v)))
                elif ("is", name.get(what, what)) in out:
                    good += 1
                else:
                    bad.append((w2, "the field %s is not what is written as %s: %s" % (f, name.get(what, what), list(out) or v)))
            if vals and not good:
                bad.append((w, "the field %s is always 0" % f))
    return bad


def run(prop):
    import ast

    def mk():
        return [mon.Harness(), mon.CodecContract(), Rows()]
    js = [("stext_driver", p, mk, {}) for p in ir.PROGRAMS] + [("mex_driver", "loadsrf", lambda: [mon.Harness(), mon.Mex(), MexRows()], {})]
    rs = simjobs.run(js)
    bad, cov = simjobs.summary(rs, prop, ["rows_written", "values_matched", "rates_written", "fields", "field_values"])
    for p, r in zip(ir.PROGRAMS, rs):
        if not r["n"].get("values_matched"):
            raise ir.AnalysisBroken("no value of the results file of %s is understood" % p)
    name = dict(ast.literal_eval(sorted(rs[0]["obs"]["names"])[0]))
    bad += [("loadsrf", "%s: %s" % x) for x in loader(rs[-1]["obs"], name)]
    cov["names"] = name
    return bad, cov
