"""Abstract numeric values: polynomials over interned atoms, boolean conditions, pointers.

Integers and floating point numbers are both treated as exact (real) numbers; machine overflow is only
modelled where a property needs it (wrap atoms, see sem.py).
"""
from fractions import Fraction
import itertools, math, random

_serial = itertools.count(1)


def next_serial():
    return next(_serial)


class Atom:
    __slots__ = ("id", "kind", "a", "level", "meta", "isint", "__weakref__")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


_intern = {}
_aid = itertools.count(1)


def mk_atom(kind, a, level, isint=True, meta=None):
    k = (kind, a)
    r = _intern.get(k)
    if r is None:
        r = Atom()
        r.id, r.kind, r.a, r.level, r.meta, r.isint = next(_aid), kind, a, level, meta, isint
        _intern[k] = r
    return r


def fresh(name="t", isint=True, meta=None):
    """A new symbol (as a Poly)."""
    s = next_serial()
    return var(mk_atom("sym", (name, s), s, isint, meta))


class Poly:
    """Sum of coefficient * product of atom^exponent. d: {mono: coeff}; mono: tuple of (atom, exp)."""
    __slots__ = ("d", "_h", "_k", "_lv")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None
        self._lv = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise TypeError("Poly used as bool")

    def __add__(self, o):
        o = P(o)
        if not o.d:
            return self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mul_mono(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v == 0:
                    d.pop(m, None)
                else:
                    d[m] = v
        return Poly(d)
    __rmul__ = __mul__

    @property
    def const(self):
        """The constant value or None."""
        if not self.d:
            return 0
        if len(self.d) == 1:
            return self.d.get((), None)
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def level(self):
        if self._lv is None:
            self._lv = max([a.level for a in self.atoms()], default=0)
        return self._lv

    def isint(self):
        if self._k is False:
            return False
        for m, c in self.d.items():
            p2 = False
            for a, e in m:
                if not a.isint or e != int(e) or (e < 0 and a.kind != "pow2"):
                    return False
                p2 = p2 or a.kind == "pow2"
            if not (isinstance(c, int) or c.denominator == 1 or p2):
                return False
        return True

    def degree(self):
        return max((sum(abs(e) for a, e in m) for m in self.d), default=0)

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in self.d.items():
            ms = "*".join((show_atom(a) if e == 1 else "%s^%s" % (show_atom(a), e)) for a, e in m)
            if not m:
                out.append(str(c if c == int(c) else float(c)))
            elif c == 1:
                out.append(ms)
            else:
                out.append("%s*%s" % (c if c == int(c) else float(c), ms))
        return " + ".join(out)


def mul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n == 0:
            del d[x]
        else:
            d[x] = n
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


ZERO = Poly({})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fraction(x)
        if x.denominator == 1:
            x = int(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    return Poly({(): x}) if x != 0 else ZERO


ONE = P(1)


def var(atom):
    return Poly({((atom, 1),): 1})


def op(name, *args, isint=True):
    lv = max([level_of(x) for x in args], default=0)
    return var(mk_atom("op", (name,) + args, lv, isint))


def level_of(x):
    if isinstance(x, Poly):
        return x.level()
    if isinstance(x, Bool):
        return x.level()
    if isinstance(x, Ptr):
        return max(x.off.level(), 0)
    if isinstance(x, tuple) and x and x[0] == "streq":
        return max([v[-1] for v in x[1:] if isinstance(v, tuple) and isinstance(v[-1], int)], default=0)
    return 0


def pow2(p):
    c = p.const
    if c is not None:
        return P(2 ** c) if c >= 0 else P(Fraction(1, 2 ** -c))
    k = p.d.get((), 0)
    if k != 0 and k == int(k):
        return pow2(p - k) * (P(2 ** int(k)) if k > 0 else P(Fraction(1, 2 ** int(-k))))
    return var(mk_atom("pow2", (p,), p.level(), True))


def inv(p):
    c = p.const
    if c is not None:
        if c == 0:
            return op("inv", p, isint=False)
        return P(Fraction(1) / Fraction(c))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return Poly({tuple((a, -e) for a, e in m): Fraction(1) / Fraction(c)})
    return op("inv", p, isint=False)


def frac(a, b):
    return a * inv(b)


def fexp(p):
    """exp(p); exp(log(c) * t) becomes c^t."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        for a, e in m:
            if a.kind == "op" and a.a[0] == "log" and e == 1:
                rest = Poly({tuple(x for x in m if x[0] is not a): c})
                return op("pow", a.a[1], rest, isint=False)
    return op("exp", p, isint=False)


def fpow(a, b):
    return op("pow", a, b, isint=False)


def subst(p, m):
    """Replaces atoms by polynomials (m: {atom: Poly}), also inside nested atoms."""
    if not m:
        return p
    hit = False
    for a in p.atoms():
        if a in m or a.kind != "sym":
            hit = True
            break
    if not hit:
        return p
    res = ZERO
    for mono, c in p.d.items():
        t = P(c)
        for a, e in mono:
            q = subst_atom(a, m)
            if q.d == {((a, 1),): 1}:
                t = t * Poly({((a, e),): 1})
            elif e > 0 and e == int(e):
                for _ in range(int(e)):
                    t = t * q
            elif e == -1:
                t = t * inv(q)
            elif e == int(e):
                qi = inv(q)
                for _ in range(int(-e)):
                    t = t * qi
            else:
                t = t * op("powr", q, P(e), isint=False)
        res = res + t
    return res


def subst_any(x, m):
    if isinstance(x, Poly):
        return subst(x, m)
    if isinstance(x, Bool):
        return x.subst(m)
    if isinstance(x, Ptr):
        return Ptr(x.obj, subst(x.off, m), x.rng)
    return x


def subst_atom(a, m):
    q = m.get(a)
    if q is not None:
        return q
    if a.kind == "sym":
        return var(a)
    if a.kind == "pow2":
        n = subst(a.a[0], m)
        return var(a) if n == a.a[0] else pow2(n)
    if a.kind == "ld":
        logkey, off, size, ty = a.a
        n = subst(off, m)
        if n == off:
            return var(a)
        return var(mk_ld(logkey, n, size, ty))
    if a.kind == "ind":
        n = a.a[0].subst(m)
        return var(a) if n == a.a[0] else ind(n)
    if a.kind == "op":
        args = tuple(subst_any(x, m) for x in a.a[1:])
        if args == a.a[1:]:
            return var(a)
        if a.a[0] == "log":
            return flog(args[0])
        return op(a.a[0], *args, isint=a.isint)
    if a.kind == "sum":
        ix, body, hi = a.a
        b2, h2 = subst(body, m), subst(hi, m)
        if b2 == body and h2 == hi:
            return var(a)
        return mk_sum(b2, h2)
    raise ValueError(a.kind)


def flog(p):
    return op("log", p, isint=False)


IDX = mk_atom("sym", ("#idx", 0), 0)          # the bound index of sums and array segments


class LogKey:
    """Identifies an unknown memory content."""
    __slots__ = ("id", "level", "desc")

    def __init__(self, desc="", level=None):
        self.id = next_serial()
        self.level = self.id if level is None else level
        self.desc = desc

    def __repr__(self):
        return "%s#%d" % (self.desc, self.id)


def mk_ld(logkey, off, size, ty):
    return mk_atom("ld", (logkey, off, size, ty), max(logkey.level, off.level()), ty != "f")


def mk_sum(body, hi):
    """sum of body[IDX] for IDX = 0 .. hi-1"""
    if body == ZERO:
        return ZERO
    if IDX not in deep_atoms(body):
        return body * hi
    c = hi.const
    if c is not None and c <= 0:
        return ZERO
    lv = max(body.level(), hi.level())
    return var(mk_atom("sum", (IDX, body, hi), lv, body.isint()))


def deep_atoms(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for a in x.atoms():
            if a in acc:
                continue
            acc.add(a)
            for y in a.a:
                deep_atoms(y, acc)
    elif isinstance(x, Bool):
        for y in x.args:
            deep_atoms(y, acc)
    elif isinstance(x, Ptr):
        deep_atoms(x.off, acc)
    return acc


class Bool:
    """pred: 'ge' (p>=0), 'gt' (p>0, non-integers only), 'eq', 'ne' on a Poly; 'and'/'or' on Bools; 'true'/'false';
    'nd' (unknown condition, identified by its argument)."""
    __slots__ = ("pred", "args", "_lv")

    def __init__(self, pred, *args):
        self.pred, self.args = pred, args
        self._lv = None

    def __eq__(self, o):
        return isinstance(o, Bool) and self.pred == o.pred and self.args == o.args

    def __hash__(self):
        return hash((self.pred, self.args))

    def level(self):
        if self._lv is None:
            self._lv = max([level_of(x) for x in self.args], default=0)
        return self._lv

    def subst(self, m):
        if self.pred in ("true", "false", "nd", "nnd"):
            return self
        a = tuple(subst_any(x, m) for x in self.args)
        if a == self.args:
            return self
        if self.pred in ("and", "or"):
            return Bool(self.pred, *a)
        return mk_cmp(self.pred, a[0])

    def neg(self):
        p = self.pred
        if p == "true":
            return FALSE
        if p == "false":
            return TRUE
        if p == "eq":
            return Bool("ne", *self.args)
        if p == "ne":
            return Bool("eq", *self.args)
        if p == "ge":
            q = self.args[0]
            if q.isint():
                return mk_cmp("ge", -q - 1)
            return mk_cmp("gt", -q)
        if p == "gt":
            return mk_cmp("ge", -self.args[0])
        if p == "and":
            return Bool("or", *[x.neg() for x in self.args])
        if p == "or":
            return Bool("and", *[x.neg() for x in self.args])
        if p == "nd":
            return Bool("nnd", *self.args)
        return Bool("nd", *self.args)

    def __repr__(self):
        s = {"ge": ">=0", "gt": ">0", "eq": "==0", "ne": "!=0"}
        if self.pred in s:
            return "(%s %s)" % (self.args[0], s[self.pred])
        return "%s(%s)" % (self.pred, ", ".join(map(str, self.args)))


TRUE, FALSE = Bool("true"), Bool("false")


def mk_cmp(pred, p):
    c = p.const
    if c is not None:
        r = {"ge": c >= 0, "gt": c > 0, "eq": c == 0, "ne": c != 0}[pred]
        return TRUE if r else FALSE
    if pred in ("eq", "ne"):
        # canonical sign
        lead = max(p.d, key=lambda m: [a.id for a, e in m])
        if p.d[lead] < 0:
            p = -p
    if pred == "gt" and p.isint():
        return mk_cmp("ge", p - 1)
    return Bool(pred, p)


def ind(b):
    """0/1 value of a condition."""
    if b.pred == "true":
        return ONE
    if b.pred == "false":
        return ZERO
    if b.pred in ("ne",):
        return ONE - ind(b.neg())
    if b.pred == "eq" and len(b.args[0].d) <= 2 and b.args[0].degree() == 1:
        a = next(iter(b.args[0].atoms()))
        if a.kind == "ind":                       # a comparison of a truth value
            t = -b.args[0].d.get((), 0) / b.args[0].d[((a, 1),)]
            return var(a) if t == 1 else ONE - var(a) if t == 0 else ZERO
    return var(mk_atom("ind", (b,), b.level(), True))


class Ptr:
    __slots__ = ("obj", "off", "rng")

    def __init__(self, obj, off=ZERO, rng=None):
        self.obj, self.off, self.rng = obj, off, rng

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class _Null:
    def __repr__(self):
        return "NULL"


NULL = _Null()


class UPtr:
    """Pointer to something unknown."""
    __slots__ = ("why", "id")

    def __init__(self, why):
        self.why = why
        self.id = next_serial()

    def __repr__(self):
        return "?ptr(%s)" % (self.why,)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def show_atom(a):
    if a.kind == "sym":
        return "%s.%d" % a.a
    if a.kind == "ld":
        return "[%s+%s]" % (a.a[0], a.a[1])
    if a.kind == "op":
        return "%s(%s)" % (a.a[0], ", ".join(map(str, a.a[1:])))
    if a.kind == "sum":
        return "SUM_{<%s}(%s)" % (a.a[2], a.a[1])
    return "%s(%s)" % (a.kind, ", ".join(map(str, a.a)))


# --------------------------------------------------------------------------- numeric sampling (algebraic identity test)
def evaluate(x, val, rnd, env=None):
    """Value of an expression under a valuation of its free atoms. val: {atom: number} filled lazily with rnd(atom)."""
    env = env or {}
    if isinstance(x, Bool):
        if x.pred == "true":
            return True
        if x.pred == "false":
            return False
        if x.pred == "and":
            return all(evaluate(y, val, rnd, env) for y in x.args)
        if x.pred == "or":
            return any(evaluate(y, val, rnd, env) for y in x.args)
        if x.pred in ("nd", "nnd"):
            k = ("nd", x.args)
            if k not in val:
                val[k] = random.random() < 0.5
            return val[k] == (x.pred == "nd")
        v = evaluate(x.args[0], val, rnd, env)
        tol = 1e-9 * (1 + abs(v))
        return {"ge": v >= -1e-12, "gt": v > 1e-12, "eq": abs(v) < 1e-12, "ne": abs(v) >= 1e-12}[x.pred]
    s = 0
    for m, c in x.d.items():
        t = c
        for a, e in m:
            v = eval_atom(a, val, rnd, env)
            if e == 1:
                t = t * v
            elif e == int(e) and e > 0:
                t = t * v ** int(e)
            else:
                t = t * float(v) ** float(e)
        s = s + t
    return s


def eval_atom(a, val, rnd, env):
    if a in env:
        return env[a]
    if a.kind == "sym":
        if a not in val:
            val[a] = rnd(a)
        return val[a]
    if a.kind == "pow2":
        return 2 ** evaluate(a.a[0], val, rnd, env)
    if a.kind == "ind":
        return 1 if evaluate(a.a[0], val, rnd, env) else 0
    if a.kind == "ld":
        off = evaluate(a.a[1], val, rnd, env)
        k = ("ld", a.a[0], off, a.a[2], a.a[3])
        if k not in val:
            val[k] = rnd(a)
        return val[k]
    if a.kind == "sum":
        ix, body, hi = a.a
        n = int(evaluate(hi, val, rnd, env))
        s = 0
        for i in range(min(max(n, 0), 40)):
            e2 = dict(env)
            e2[ix] = i
            s += evaluate(body, val, rnd, e2)
        return s
    if a.kind == "op":
        n = a.a[0]
        args = [evaluate(y, val, rnd, env) if isinstance(y, (Poly, Bool)) else y for y in a.a[1:]]
        try:
            if n == "inv":
                return 1.0 / float(args[0])
            if n == "exp":
                return math.exp(float(args[0]))
            if n == "log":
                return math.log(float(args[0]))
            if n == "pow":
                return float(args[0]) ** float(args[1])
            if n == "powr":
                return float(args[0]) ** float(args[1])
            if n == "sqrt":
                return math.sqrt(float(args[0]))
            if n == "fabs":
                return abs(args[0])
            if n in ("sdiv", "ashr_div"):
                q = abs(int(args[0])) // abs(int(args[1]))
                return q if (args[0] < 0) == (args[1] < 0) else -q
            if n == "srem":
                q = abs(int(args[0])) // abs(int(args[1]))
                q = q if (args[0] < 0) == (args[1] < 0) else -q
                return int(args[0]) - q * int(args[1])
            if n == "wrap32":
                v = int(args[0])
                return (v + 2 ** 31) % 2 ** 32 - 2 ** 31
            if n == "xor":
                return int(args[0]) ^ int(args[1])
            if n == "and":
                return int(args[0]) & int(args[1])
            if n == "or":
                return int(args[0]) | int(args[1])
            if n == "trunc":
                return int(args[0])
            if n == "fptosi":
                return int(args[0])
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            pass
        k = ("op", n) + tuple(round(v, 9) if isinstance(v, float) else (v if not isinstance(v, Fraction) else float(v)) for v in args)
        if k not in val:
            val[k] = rnd(a)
        return val[k]
    raise ValueError(a.kind)


def same_value(x, y, rnd=None, tries=12, seed=7):
    """Algebraic identity test of two expressions (canonical form first, then random valuations)."""
    if isinstance(x, Poly) and isinstance(y, Poly) and x == y:
        return True
    r = random.Random(seed)
    rn = rnd or (lambda a: (r.randint(1, 9) if a.isint else r.uniform(0.2, 3.0)))
    ok = 0
    for _ in range(tries * 3):
        val = {}
        try:
            a, b = evaluate(x, val, rn), evaluate(y, val, rn)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            continue
        if isinstance(a, complex) or isinstance(b, complex):
            continue
        if isinstance(a, bool) or isinstance(b, bool):
            if bool(a) != bool(b):
                return False
        elif abs(float(a) - float(b)) > 1e-7 * (1 + abs(float(a)) + abs(float(b))):
            return False
        ok += 1
        if ok >= tries:
            break
    return ok >= max(1, tries // 2)
