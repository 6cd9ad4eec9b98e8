"""Conjunctions of linear facts (the relational abstract domain) with an exact linear entailment test.

A fact is a Poly p with the meaning p >= 0; non-linear monomials count as variables of the linear domain.
Entailment of q >= 0: a non-negative combination of the facts plus a constant gives q (Farkas), found by an exact
tableau; strengthening rules for 2^x atoms and products are applied on demand.
"""
from fractions import Fraction
from math import gcd
from expr import *

MAXF = 60


def tighten(p):
    """Integer tightening of p >= 0."""
    if not p.isint():
        return p
    g = 0
    for m, c in p.d.items():
        if not isinstance(c, int) and c.denominator != 1:
            return p
        if m != ():
            g = gcd(g, abs(int(c)))
    if g <= 1:
        return p
    d = {m: int(c) // g for m, c in p.d.items() if m != ()}
    k = int(p.d.get((), 0)) // g
    if k != 0:
        d[()] = k
    return Poly(d)


def _load():
    import ctypes, os, subprocess, tempfile, shutil
    d = tempfile.mkdtemp(prefix="sa_lp_")
    try:
        so = os.path.join(d, "lp.so")
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lp.c")],
                       check=True, capture_output=True)
        lib = ctypes.CDLL(so)
        return lib.lp
    except Exception:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


_lp = None
stats = dict(lp=0, slow=0, time=0.0)


def lp_min_const(q, facts):
    """max c such that q = sum(l_i * f_i) + c with l_i >= 0 (None: none exists). q >= c then holds."""
    global _lp
    import ctypes
    if _lp is None:
        _lp = _load() or False
    if not _lp:
        return lp_slow(q, facts)
    stats["lp"] += 1
    rows, cols = {}, []
    # a monomial that occurs with one sign only (and not in q) forces its facts to zero
    for f in facts + [q]:
        for m in f.d:
            if m != () and m not in rows:
                rows[m] = len(rows)
    live = list(facts)
    while True:
        pos, neg = set(), set()
        for f in live:
            for m, c in f.d.items():
                (pos if c > 0 else neg).add(m)
        for m, c in q.d.items():
            (neg if c > 0 else pos).add(m)     # q - sum = const
        dead = {m for m in rows if (m in pos) != (m in neg)}
        if any(m != () and m in dead for m in q.d):
            return None
        n = [f for f in live if not any(m in dead for m in f.d)]
        if len(n) == len(live):
            break
        live = n
    rows = {}
    for f in live + [q]:
        for m in f.d:
            if m != () and m not in rows:
                rows[m] = len(rows)
    nr, nc = len(rows), len(live)
    if nc == 0:
        return q.const
    big = 1 << 55

    def ints(p):
        l = 1
        for c in p.d.values():
            if not isinstance(c, int):
                l = l * c.denominator // gcd(l, c.denominator)
        return l, {m: int(c * l) for m, c in p.d.items()}
    A = (ctypes.c_longlong * (nr * nc))()
    b = (ctypes.c_longlong * nr)()
    cost = (ctypes.c_longlong * nc)()
    lq, dq = ints(q)
    sign = [1] * nr
    for m, c in dq.items():
        if abs(c) > big:
            return lp_slow(q, facts)
        if m != ():
            i = rows[m]
            if c < 0:
                sign[i] = -1
            b[i] = abs(c)
    for j, f in enumerate(live):
        lf, df = ints(f)
        for m, c in df.items():
            if abs(c) > big:
                return lp_slow(q, facts)
            if m == ():
                cost[j] = c
            else:
                i = rows[m]
                A[i * nc + j] = c * sign[i]
    out = (ctypes.c_longlong * 2)()
    rc = _lp(nr, nc, A, b, cost, out)
    if rc == 1:
        return None
    if rc == 2:
        return "inf"
    if rc == 3:
        stats["slow"] += 1
        return lp_slow(q, facts)
    return (Fraction(dq.get((), 0)) - Fraction(out[0], out[1])) / lq


def lp_slow(q, facts):
    """max c such that q = sum(l_i * f_i) + c with l_i >= 0 (None: none exists). q >= c then holds."""
    # minimise sum l_i*f_i[1]  s.t. sum l_i f_i[m] = q[m]
    rows = {}
    for f in facts + [q]:
        for m in f.d:
            if m != () and m not in rows:
                rows[m] = len(rows)
    nr, nc = len(rows), len(facts)
    A = [[0] * nc for _ in range(nr)]
    b = [0] * nr
    cost = [0] * nc
    for j, f in enumerate(facts):
        for m, c in f.d.items():
            if m == ():
                cost[j] = Fraction(c)
            else:
                A[rows[m]][j] = Fraction(c)
    for m, c in q.d.items():
        if m != ():
            b[rows[m]] = Fraction(c)
    q0 = Fraction(q.d.get((), 0))
    for i in range(nr):
        if b[i] < 0:
            b[i] = -b[i]
            A[i] = [-x for x in A[i]]
    # tableau with artificials (sparse rows)
    T = []
    for i in range(nr):
        r = {j: v for j, v in enumerate(A[i]) if v != 0}
        r[nc + i] = Fraction(1)
        T.append(r)
    basis = [nc + i for i in range(nr)]
    rhs = b[:]

    def pivot(i, j):
        pv = T[i][j]
        if pv != 1:
            T[i] = {k: v / pv for k, v in T[i].items()}
            rhs[i] = rhs[i] / pv
        ri = T[i]
        for k in range(nr):
            if k != i:
                fct = T[k].get(j)
                if fct:
                    rk = T[k]
                    for c, v in ri.items():
                        nv = rk.get(c, 0) - fct * v
                        if nv == 0:
                            rk.pop(c, None)
                        else:
                            rk[c] = nv
                    rhs[k] = rhs[k] - fct * rhs[i]
        basis[i] = j

    def optimise(cst, ncols):
        it = 0
        while True:
            it += 1
            if it > 400:
                return None
            # reduced costs
            enter = None
            red = {}
            for i in range(nr):
                cb = cst(basis[i])
                if cb:
                    for c, v in T[i].items():
                        red[c] = red.get(c, 0) + cb * v
            for j in range(ncols):
                if j in basis:
                    continue
                if cst(j) - red.get(j, 0) < 0:
                    enter = j
                    break
            if enter is None:
                return sum(cst(basis[i]) * rhs[i] for i in range(nr))
            best, bi = None, None
            for i in range(nr):
                v = T[i].get(enter, 0)
                if v > 0:
                    t = rhs[i] / v
                    if best is None or t < best or (t == best and basis[i] < basis[bi]):
                        best, bi = t, i
            if bi is None:
                return "unbounded"
            pivot(bi, enter)
    r = optimise(lambda j: 1 if j >= nc else 0, nc)
    if r is None or r == "unbounded" or r > 0:
        return None
    for i in range(nr):
        if basis[i] >= nc:
            for j in sorted(T[i]):
                if j < nc and T[i][j] != 0:
                    pivot(i, j)
                    break
    r = optimise(lambda j: cost[j] if j < nc else 0, nc)
    if r is None:
        return None
    if r == "unbounded":
        return "inf"      # contradictory facts: everything is entailed
    return q0 - r


_cache = {}


class Facts:
    __slots__ = ("ges", "nes", "bools", "_h", "_idx", "eqs")

    def __init__(self, ges=(), nes=frozenset(), bools=frozenset()):
        self.ges = ges if isinstance(ges, dict) else dict.fromkeys(ges)
        self.nes = nes
        self.bools = bools
        self._h = None
        self._idx = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.ges), self.nes, self.bools)
        return self._h

    # ------------------------------------------------------------------ relevance
    def index(self):
        if self._idx is None:
            ix = {}
            for f in self.ges:
                for m in f.d:
                    if m != ():
                        ix.setdefault(m, []).append(f)
            self._idx = ix
        return self._idx

    def relevant(self, q, extra=()):
        ix = self.index()
        sel, seen = {}, set()
        front = [m for m in q.d if m != ()]
        exi = {}
        for f in extra:
            for m in f.d:
                if m != ():
                    exi.setdefault(m, []).append(f)
        for depth in range(5):
            nxt = []
            for m in front:
                if m in seen:
                    continue
                seen.add(m)
                for f in ix.get(m, ()):
                    if f not in sel:
                        sel[f] = None
                        nxt.extend(k for k in f.d if k != ())
                for f in exi.get(m, ()):
                    if f not in sel:
                        sel[f] = None
                        nxt.extend(k for k in f.d if k != ())
                for f in implicit(m):
                    if f not in sel:
                        sel[f] = None
                        nxt.extend(k for k in f.d if k != ())
            front = nxt
            if len(sel) > MAXF:
                break
        return list(sel)[:MAXF * 2]

    def lower(self, q, extra=()):
        c = q.const
        if c is not None:
            return c
        rel = self.relevant(q, extra)
        if not rel:
            return None
        return lp_min_const(q, rel)

    def ge(self, q):
        """Do the facts entail q >= 0?"""
        c = q.const
        if c is not None:
            return c >= 0
        if q in self.ges:
            return True
        k = (self.key(), q)
        r = _cache.get(k)
        if r is None:
            r = _cache[k] = self._ge(q)
        return r

    def _ge(self, q):
        q = tighten(q)
        lo = self.lower(q)
        if lo == "inf":
            return True
        isint = q.isint()

        def ok(v):
            return v is not None and (v == "inf" or v >= 0 or (isint and v > -1))
        if ok(lo):
            return True
        ext = self.strengthen(q)
        if ext:
            lo = self.lower(q, ext)
            if ok(lo):
                return True
        return False

    def strengthen(self, q):
        ext = []
        atoms = q.atoms()
        for f in self.relevant(q):
            atoms |= f.atoms()
        p2 = [a for a in atoms if a.kind == "pow2"][:8]
        for a in p2:
            for b in p2:
                if a is not b:
                    lo = self.lower(a.a[0] - b.a[0])
                    if lo not in (None, "inf") and lo >= 0:
                        ext.append(var(a) - var(b) * P(2 ** int(lo)))
            up = self.lower(-a.a[0])
            if up not in (None, "inf") and -up < 60:
                ext.append(P(2 ** int(-up // 1)) - var(a))
            lo = self.lower(a.a[0])
            if lo not in (None, "inf") and 0 <= lo < 60:
                ext.append(var(a) - P(2 ** int(-(-lo // 1))))
        # products
        nl = [m for m in q.d if sum(e for a, e in m) == 2 and all(e > 0 for a, e in m)]
        if nl:
            for m in nl[:4]:
                al = [a for a, e in m for _ in range(int(e))]
                fs = []
                for a in al[:2]:
                    mm = ((a, 1),)
                    c = [f for f in self.index().get(mm, ()) if f.degree() == 1 and len(f.d) <= 4][:8]
                    c += [f for f in implicit(mm) if f.degree() == 1]
                    lo = self.lower(var(a)) if a.isint else None
                    if lo not in (None, "inf"):
                        c.insert(0, var(a) - P(int(-(-lo // 1))))
                    fs.append(c)
                for f in fs[0]:
                    for g in fs[1] if len(fs) > 1 else fs[0]:
                        ext.append(f * g)
        return ext[:60]

    def eq0(self, p):
        return self.ge(p) and self.ge(-p)

    # ------------------------------------------------------------------ conditions
    def entails(self, b):
        k = b.pred
        if k == "true":
            return True
        if k == "false":
            return self.contradictory()
        if b in self.bools:
            return True
        if k == "and":
            return all(self.entails(x) for x in b.args)
        if k == "or":
            return any(self.entails(x) for x in b.args)
        if k in ("nd", "nnd"):
            return False
        p = b.args[0]
        if k == "ge":
            return self.ge(p)
        if k == "gt":
            if Bool("gt", p) in self.bools:
                return True
            lo = self.lower(p)
            return lo == "inf" or (lo is not None and lo > 0)
        if k == "eq":
            return self.eq0(p)
        if k == "ne":
            if p in self.nes or -p in self.nes:
                return True
            for s in (p, -p):
                if p.isint():
                    if self.ge(s - 1):
                        return True
                else:
                    if self.entails(mk_cmp("gt", s)):
                        return True
            # p equals something known to differ from zero
            for r in self.nes:
                if r.atoms() & p.atoms() and (self.eq0(r - p) or self.eq0(r + p)):
                    return True
            return False
        return False

    def contradictory(self):
        return False

    def add(self, b):
        """Facts with the condition added; None if it contradicts them."""
        k = b.pred
        if k == "true":
            return self
        if k == "false":
            return None
        if k == "and":
            f = self
            for x in b.args:
                f = f.add(x)
                if f is None:
                    return None
            return f
        if self.entails(b):
            return self
        if self.entails(b.neg()):
            return None
        if k == "or":
            left = [x for x in b.args if not self.entails(x.neg())]
            if not left:
                return None
            if len(left) == 1:
                return self.add(left[0])
            return Facts(self.ges, self.nes, self.bools | {Bool("or", *left)})
        if k in ("nd", "nnd"):
            return Facts(self.ges, self.nes, self.bools | {b})
        p = b.args[0]
        if not p.isint():
            nb = self.bools | {b}
            g = self.ges
            if k in ("ge", "gt"):
                g = dict(g)
                g[p] = None
            elif k == "eq":
                g = dict(g)
                g[p] = None
                g[-p] = None
            return Facts(g, self.nes, nb)
        if k == "ne":
            # sharpen at a bound
            if self.ge(p):
                return self._with(tighten(p - 1))
            if self.ge(-p):
                return self._with(tighten(-p - 1))
            return Facts(self.ges, self.nes | {p}, self.bools)._known()
        if k == "ge":
            r = self._with(tighten(p))
        else:
            r = self._with(p)._with(-p)
        return r._resharpen(p)

    def _known(self):
        return self

    def _with(self, p):
        if p in self.ges:
            return self
        g = dict(self.ges)
        g[p] = None
        return Facts(g, self.nes, self.bools)

    def _resharpen(self, p):
        """A disequality may become a strict inequality after a new bound."""
        r = self
        at = p.atoms()
        for q in self.nes:
            if q.atoms() & at:
                if r.ge(q):
                    if r.ge(-q):
                        return None
                    r = Facts(r.ges, r.nes - {q}, r.bools)._with(q - 1)
                elif r.ge(-q):
                    r = Facts(r.ges, r.nes - {q}, r.bools)._with(-q - 1)
        return r

    def drop_atoms(self, keep):
        """Only facts all of whose atoms satisfy keep()."""
        g = {f: None for f in self.ges if all(keep(a) for a in f.atoms())}
        n = frozenset(p for p in self.nes if all(keep(a) for a in p.atoms()))
        b = frozenset(x for x in self.bools if all(keep(a) for a in deep_atoms(x)))
        return Facts(g, n, b)

    def mapped(self, m):
        g = {}
        for f in self.ges:
            q = subst(f, m)
            c = q.const
            if c is None:
                g[q] = None
        n = frozenset(subst(p, m) for p in self.nes)
        b = frozenset(x.subst(m) for x in self.bools)
        return Facts(g, n, b)

    def project(self, dead, limit=6):
        """Eliminates dead atoms by combining facts that contain them linearly (keeps consequences)."""
        ges = dict(self.ges)
        for a in dead:
            mono = ((a, 1),)
            pos, neg, oth = [], [], {}
            for f in ges:
                c = f.d.get(mono)
                occurs = any(a == x for m in f.d for x, e in m)
                if not occurs:
                    oth[f] = None
                elif c is not None and sum(1 for m in f.d for x, e in m if x == a) == 1:
                    (pos if c > 0 else neg).append((f, c))
            if len(pos) * len(neg) <= limit * limit:
                for f, c in pos:
                    for g, d in neg:
                        h = f * Fraction(1, 1) * P(Fraction(-d)) + g * P(Fraction(c))
                        h = tighten(h) if h.isint() else h
                        if h.const is None:
                            oth[h] = None
            ges = oth
        dd = set(dead)
        return Facts(ges, frozenset(p for p in self.nes if not (p.atoms() & dd)),
                     frozenset(x for x in self.bools if not (deep_atoms(x) & dd)))


_imp = {}


def implicit(mono):
    """Facts that always hold for an atom."""
    r = _imp.get(mono)
    if r is not None:
        return r
    r = []
    if len(mono) == 1 and mono[0][1] == 1:
        a = mono[0][0]
        v = var(a)
        if a.kind == "pow2":
            r.append(v - (P(1)) if True else v)
        elif a.kind == "ind":
            r += [v, P(1) - v]
        elif a.kind == "sum":
            b, hi = a.a[1], a.a[2]
            ats = sorted(b.atoms())
            if len(ats) <= 4 and all(x.kind == "ind" for x in ats):
                vals = []
                for k in range(2 ** len(ats)):
                    vals.append(subst(b, {x: P(k >> i & 1) for i, x in enumerate(ats)}).const)
                lo, up = min(vals), max(vals)
                h = hi.atoms()
                if len(h) == 1 and hi == var(next(iter(h))) and (next(iter(h)).meta or {}).get("min") == 0:
                    r += [v - P(lo) * hi, P(up) * hi - v]
                elif lo >= 0:
                    r.append(v)
                elif up <= 0:
                    r.append(-v)
        elif a.kind == "op" and a.a[0] in ("zext8", "abs", "strlen"):
            r.append(v)
        if a.meta and "min" in a.meta:
            r.append(v - a.meta["min"])
        if a.meta and "max" in a.meta:
            r.append(P(a.meta["max"]) - v)
    elif len(mono) == 1 and mono[0][1] == 2:
        r.append(Poly({mono: 1}))
    _imp[mono] = r
    return r
