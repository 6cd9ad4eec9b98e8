"""Models of library functions."""
from expr import *
from sem import Stop, Obj
import sem
from ir import AnalysisBroken

TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def setres(st, ins, v):
    if ins.res:
        st.frames[-1][ins.res] = v
    return None


def ev(eng, st, kind, ins, **kw):
    for mon in eng.mons:
        mon.on_event(st, kind, ins, **kw)


def deref(eng, st, p, n, ins, write):
    """Access check of a library function on n bytes; True if the object is known."""
    return eng.access(st, p, n, ins, write) and isinstance(p, Ptr) and p.obj in st.mem


# --------------------------------------------------------------------------- strings
def literal(eng, st, p):
    """Bytes of a constant string that nothing wrote to."""
    if not isinstance(p, Ptr) or p.obj not in st.mem:
        return None
    o = st.mem[p.obj]
    if o.log or not (isinstance(o.base, tuple) and o.base[0] == "init") or p.off.const is None:
        return None
    v = o.base[2]
    if v[0] == "str":
        b = v[1][int(p.off.const):]
    elif v[0] == "agg" and all(x[1][0] == "c" for x in v[1]):
        b = bytes(x[1][2] & 255 for x in v[1])[int(p.off.const):]
    else:
        return None
    i = b.find(b"\0")
    return b[:i] if i >= 0 else None


def zero_bound(eng, st, o, off):
    """A known NUL at or behind off (offset), or None."""
    F = st.facts
    for a, ln, v in o.texts:
        d = off - a
        if F.ge(d) and F.ge(ln - d):
            return a + ln
    best = None
    if st.g.get("tkobj") is not None and isinstance(st.g["tkobj"], Ptr) and st.g["tkobj"].obj == o.name:
        if F.ge(st.gn["tkend"] - off):
            best = st.gn["tkend"]
    seen = []
    for e in o.log:
        if e[0] == "w" and e[2] == 1 and isinstance(e[3], Poly) and e[3].const == 0:
            z = e[1]
            if F.ge(z - off):
                ok = True
                for s in seen:
                    if not clear_of(F, s, z):
                        ok = False
                        break
                if ok and (best is None or F.ge(best - z)):
                    best = z
                    if best is not None:
                        break
        seen.append(e)
        if len(seen) > 12:
            break
    return best


def clear_of(F, e, z):
    k = e[0]
    if k == "w":
        if e[2] == 1 and isinstance(e[3], Poly) and e[3].const == 0:
            return True
        return F.ge(e[1] - z - 1) or F.ge(z - e[1] - e[2])
    if k == "hr":
        return F.ge(e[1] - z - 1) or F.ge(z - e[2])
    if k in ("z",):
        return True
    if k == "cp":
        return F.ge(e[1] - z - 1) or F.ge(z - e[1] - e[2])
    if k == "seg":
        lo, hi = e[1], e[1] + e[2] * e[5]
        return e[2] > 0 and (F.ge(lo - z - 1) or F.ge(z - hi))
    return False


def text_at(eng, st, p, ins=None, need=True):
    """(length, content id) of the string at p."""
    lit = literal(eng, st, p)
    if lit is not None:
        return P(len(lit)), ("lit", lit)
    if not isinstance(p, Ptr) or p.obj not in st.mem:
        return fresh("len", True, {"min": 0}), ("any", next_serial())
    o = st.mem[p.obj]
    F = st.facts
    for a, ln, v in o.texts:
        d = p.off - a
        if d.const == 0 or (d.isint() and F.eq0(d)):
            return ln, v
    for a, ln, v in o.texts:
        d = p.off - a
        if F.ge(d) and F.ge(ln - d):
            return ln - d, ("sub", v, d)
    z = zero_bound(eng, st, o, p.off)
    ln = fresh("len", True, {"min": 0})
    if z is not None:
        st.facts = st.facts._with(z - p.off - ln)
    # first byte known to differ from NUL?
    b = eng.read_log(o.base, o.log, p.off, 1, ("i", 8), p.rng, st.facts)
    if isinstance(b, Poly):
        if b.const is not None:
            if b.const == 0:
                ln = ZERO
            else:
                st.facts = st.facts._with(ln - 1)
        elif st.facts.entails(mk_cmp("ne", b)):
            st.facts = st.facts._with(ln - 1)
    v = ("any", next_serial())
    if ln.const is None:
        st.mem[p.obj] = o.but(texts=o.texts + ((p.off, ln, v),))
    return ln, v


def set_text(eng, st, p, ln, val):
    o = st.mem[p.obj]
    keep = tuple(t for t in o.texts if t[0] != p.off and (st.facts.ge(t[0] - p.off - ln - 1) or st.facts.ge(p.off - t[0] - t[1] - 1)))
    st.mem[p.obj] = o.but(texts=keep + ((p.off, ln, val),))


def cat(a, b):
    la = list(a[1:]) if a[0] == "cat" else [a]
    lb = list(b[1:]) if b[0] == "cat" else [b]
    out = []
    for x in la + lb:
        if x == ("lit", b""):
            continue
        if out and out[-1][0] == "lit" and x[0] == "lit":
            out[-1] = ("lit", out[-1][1] + x[1])
        else:
            out.append(x)
    if len(out) == 1:
        return out[0]
    return ("cat",) + tuple(out) if out else ("lit", b"")


@model("strlen")
def m_strlen(eng, st, args, ins):
    p = args[0]
    if not eng.access(st, p, ONE, ins, False):
        return setres(st, ins, fresh("len", True, {"min": 0}))
    ln, v = text_at(eng, st, p, ins)
    return setres(st, ins, ln)


@model("strcpy", "stpcpy", "__strcpy_chk")
def m_strcpy(eng, st, args, ins):
    d, s = args[0], args[1]
    ok = deref(eng, st, s, ONE, ins, False)
    ln, v = text_at(eng, st, s, ins)
    if deref(eng, st, d, ln + 1, ins, True):
        eng.havoc_range(st, d, ln + 1, "strcpy")
        put_zero(eng, st, d, ln)
        set_text(eng, st, d, ln, v)
    ev(eng, st, "strcpy", ins, dst=d, src=s, ln=ln, val=v)
    return setres(st, ins, d)


def put_zero(eng, st, d, ln):
    eng.push(st, d.obj, ("w", d.off + ln, 1, ZERO, d.rng))


@model("strcat", "__strcat_chk")
def m_strcat(eng, st, args, ins):
    d, s = args[0], args[1]
    deref(eng, st, s, ONE, ins, False)
    if not deref(eng, st, d, ONE, ins, False):
        return setres(st, ins, d)
    l1, v1 = text_at(eng, st, d, ins)
    l2, v2 = text_at(eng, st, s, ins)
    if deref(eng, st, Ptr(d.obj, d.off + l1, d.rng), l2 + 1, ins, True):
        off = Ptr(d.obj, d.off + l1, d.rng)
        eng.havoc_range(st, off, l2 + 1, "strcat")
        put_zero(eng, st, off, l2)
        set_text(eng, st, d, l1 + l2, cat(v1, v2))
    return setres(st, ins, d)


@model("strncpy", "strncat")
def m_strncpy(eng, st, args, ins):
    d, s, n = args[0], args[1], eng.as_int(args[2])
    deref(eng, st, s, ONE, ins, False)
    if deref(eng, st, d, n, ins, True):
        eng.havoc_range(st, d, n, "strncpy")
    return setres(st, ins, d)


@model("strcmp")
def m_strcmp(eng, st, args, ins):
    a, b = args
    deref(eng, st, a, ONE, ins, False)
    deref(eng, st, b, ONE, ins, False)
    la, va = text_at(eng, st, a)
    lb, vb = text_at(eng, st, b)
    if va[0] == "lit" and vb[0] == "lit":
        return setres(st, ins, P(0 if va[1] == vb[1] else (1 if va[1] > vb[1] else -1)))
    if va == vb:
        return setres(st, ins, ZERO)
    if vb[0] != "lit":
        va, vb = vb, va
    ev(eng, st, "strcmp", ins, a=va, b=vb)
    return setres(st, ins, ONE - ind(Bool("nd", ("streq", va, vb))))


@model("strncmp", "memcmp", "strcasecmp")
def m_strncmp(eng, st, args, ins):
    deref(eng, st, args[0], ONE, ins, False)
    deref(eng, st, args[1], ONE, ins, False)
    return setres(st, ins, fresh("strncmp"))


@model("strchr", "strrchr", "strstr", "strpbrk")
def m_strchr(eng, st, args, ins):
    p = args[0]
    if not deref(eng, st, p, ONE, ins, False):
        return setres(st, ins, UPtr("strchr"))
    ln, v = text_at(eng, st, p)
    s2 = st.copy()
    d = fresh("pos", True, {"min": 0})
    s2.facts = s2.facts._with(ln - d)
    return [(st, NULL), (s2, Ptr(p.obj, p.off + d, p.rng))]


@model("strdup")
def m_strdup(eng, st, args, ins):
    p = args[0]
    deref(eng, st, p, ONE, ins, False)
    ln, v = text_at(eng, st, p)
    out = alloc(eng, st, ins, ln + 1)
    for s, r in out:
        if isinstance(r, Ptr):
            put_zero(eng, s, r, ln)
            set_text(eng, s, r, ln, v)
    return out


@model("strtok", "strtok_r")
def m_strtok(eng, st, args, ins):
    p, seps = args[0], args[1]
    sep = literal(eng, st, seps)
    deref(eng, st, seps, ONE, ins, False)
    if p is not NULL:
        if not deref(eng, st, p, ONE, ins, False):
            st.g["tkobj"] = None
            return setres(st, ins, UPtr("strtok"))
        ln, v = text_at(eng, st, p)
        st.g["tkobj"] = Ptr(p.obj)
        st.gn["tkpos"] = p.off
        st.gn["tkend"] = p.off + ln
        # does a separator precede the terminating NUL?
        o = st.mem[p.obj]
        z = zero_bound(eng, st, o, p.off)
        st.g["tksep"] = False
        if z is not None:
            b = eng.read_log(o.base, o.log, z - 1, 1, ("i", 8), p.rng, st.facts)
            if isinstance(b, Poly) and b.const is not None and sep is not None and bytes([int(b.const) & 255]) in [bytes([c]) for c in sep]:
                st.g["tksep"] = True
                st.gn["tkend"] = z
            elif v[0] == "any":
                st.gn["tkend"] = z
        st.g["tkid"] = 0
        st.mem[p.obj] = st.mem[p.obj].but(texts=())
    cur = st.g.get("tkobj")
    if cur is None or cur.obj not in st.mem or st.mem[cur.obj].status != "live":
        if cur is not None:
            ev(eng, st, "uaf", ins, ptr=cur)
        return setres(st, ins, UPtr("strtok"))
    nul = st.copy()
    nul.gn["tkpos"] = nul.gn["tkend"]
    ev(eng, nul, "token", ins, val=None, first=p is not NULL)
    t = fresh("tok")
    ln = fresh("toklen", True, {"min": 1})
    pos2 = fresh("tkpos")
    end, pos = st.gn["tkend"], st.gn["tkpos"]
    F = st.facts._with(t - pos)._with(end - t - ln - (1 if st.g.get("tksep") else 0))
    if st.g.get("tksep"):
        pos2 = t + ln + 1
    else:
        F = F._with(pos2 - t - ln)._with(t + ln + 1 - pos2)._with(end - pos2)
    st.facts = F
    st.gn["tkpos"] = pos2
    v = ("tok", next_serial())
    o = st.mem[cur.obj]
    eng.touch_text(st, Ptr(cur.obj, t), P(1), None) if False else None
    st.mem[cur.obj] = o.but(texts=((t, ln, v),))
    eng.push(st, cur.obj, ("w", t + ln, 1, ZERO, None))
    # the first character of a token is neither NUL nor a separator
    b = eng.read_log(st.mem[cur.obj].base, st.mem[cur.obj].log, t, 1, ("i", 8), None, st.facts)
    if isinstance(b, Poly) and b.const is None:
        f2 = st.facts.add(mk_cmp("ne", b))
        if f2 is not None:
            st.facts = f2
    r = Ptr(cur.obj, t)
    ev(eng, st, "token", ins, val=v, first=p is not NULL, ptr=r)
    return [(nul, NULL), (st, r)]


# --------------------------------------------------------------------------- numbers from text
def number(eng, st, p, ins, name, isint):
    deref(eng, st, p, ONE, ins, False)
    ln, v = text_at(eng, st, p)
    meta = {"text": v}
    for mon in eng.mons:
        h = getattr(mon, "origin", None)
        if h:
            meta["origin"] = h(st, v)
    if v[0] == "lit":
        try:
            return P(int(v[1]) if isint else Fraction(v[1].decode()))
        except ValueError:
            pass
    r = fresh(name, isint, meta)
    if isint:
        st.facts = st.facts._with(r + P(2 ** 31))._with(P(2 ** 31 - 1) - r)
    ev(eng, st, "number", ins, val=r, text=v)
    return r


@model("atoi", "atol")
def m_atoi(eng, st, args, ins):
    return setres(st, ins, number(eng, st, args[0], ins, "atoi", True))


@model("strtol", "strtoul")
def m_strtol(eng, st, args, ins):
    if isinstance(args[1], Ptr):
        eng.havoc_range(st, args[1], P(8), "endptr")
    return setres(st, ins, number(eng, st, args[0], ins, "atoi", True))


@model("atof")
def m_atof(eng, st, args, ins):
    return setres(st, ins, number(eng, st, args[0], ins, "atof", False))


@model("strtod")
def m_strtod(eng, st, args, ins):
    if isinstance(args[1], Ptr):
        eng.havoc_range(st, args[1], P(8), "endptr")
    return setres(st, ins, number(eng, st, args[0], ins, "atof", False))


# --------------------------------------------------------------------------- memory
def alloc(eng, st, ins, size, base=None):
    out = []
    if not eng.opt.get("no_oom"):
        nul = st.copy()
        ev(eng, nul, "fail", ins, what="malloc")
        out.append((nul, NULL))
    p = eng.new_heap(st, ins, size, "heap", base)
    ev(eng, st, "alloc", ins, ptr=p, size=size)
    out.append((st, p))
    return out


@model("malloc")
def m_malloc(eng, st, args, ins):
    return alloc(eng, st, ins, eng.as_int(args[0]))


@model("calloc")
def m_calloc(eng, st, args, ins):
    return alloc(eng, st, ins, eng.as_int(args[0]) * eng.as_int(args[1]), "zero")


@model("realloc")
def m_realloc(eng, st, args, ins):
    p, n = args[0], eng.as_int(args[1])
    out = alloc(eng, st, ins, n)
    for s, r in out:
        if isinstance(r, Ptr) and isinstance(p, Ptr):
            o = s.mem.get(p.obj)
            if o is not None:
                s.mem[r.obj] = s.mem[r.obj].but(base=o.base, log=o.log, texts=o.texts)
                s.mem[p.obj] = o.but(status="freed")
    return out


@model("free")
def m_free(eng, st, args, ins):
    p = args[0]
    if p is NULL:
        return setres(st, ins, None)
    ev(eng, st, "free", ins, ptr=p)
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.mem[p.obj]
        st.mem[p.obj] = o.but(status="freed", texts=())
    return setres(st, ins, None)


def cells_of(eng, n):
    """Layout used to split a small copy into cells: [(offset, type)] or None."""
    cache = eng.opt.setdefault("_cells", {})
    if n not in cache:
        T = eng.m.types
        c = []
        for name in T.structs:
            t = ("st", name)
            try:
                if T.fields(t) and T.size(t) == n:
                    fs = [T.field_off(t, i) for i in range(len(T.fields(t)))]
                    if all(f[0] in ("i", "f", "ptr") for o, f in fs):
                        c.append(fs)
            except Exception:
                pass
        if c and all(x == c[0] for x in c):
            cache[n] = c[0]
        elif n % 4 == 0 and n <= 64:
            cache[n] = [(i, ("i", 32)) for i in range(0, n, 4)]
        else:
            cache[n] = None
    return cache[n]


def do_copy(eng, st, args, ins):
    d, s, n = args[0], args[1], eng.as_int(args[2])
    if n.const == 0:
        return setres(st, ins, d)
    okr = deref(eng, st, s, n, ins, False)
    okw = deref(eng, st, d, n, ins, True)
    if okw:
        c = n.const
        split = okr and c is not None and c <= 96 and cells_of(eng, int(c))
        if not split:
            for mon in eng.mons:
                if not (okr and mon.on_copy(st, d, s, n, ins)):
                    mon.on_store(st, d, None, n, ins)
        if split:
            vals = []
            so = st.mem[s.obj]
            cells = cells_of(eng, int(c))
            if not so.log and isinstance(so.base, tuple) and so.base[0] == "init" and c % 8 == 0 and all(t == ("i", 32) for _, t in cells):
                ps = [(i, ("ptr",)) for i in range(0, int(c), 8)]
                if all(isinstance(eng.read_log(so.base, so.log, s.off + i, 8, t, s.rng, st.facts), Ptr) for i, t in ps):
                    cells = ps
            for off, ty in cells:
                vals.append((off, ty, eng.read_log(so.base, so.log, s.off + off, eng.m.types.size(ty), ty, s.rng, st.facts)))
            for off, ty, v in vals:
                for mon in eng.mons:
                    mon.on_store(st, Ptr(d.obj, d.off + off, d.rng), v, eng.m.types.size(ty), ins)
                eng.store(st, Ptr(d.obj, d.off + off, d.rng), v, eng.m.types.size(ty), ins)
        elif okr:
            so = st.mem[s.obj]
            texts = st.mem[d.obj].texts
            if texts:
                keep = tuple(t for t in texts if st.facts.ge(d.off - t[0] - t[1] - 1) or st.facts.ge(t[0] - d.off - n))
                st.mem[d.obj] = st.mem[d.obj].but(texts=keep)
            eng.push(st, d.obj, ("cp", d.off, n, so.base, so.log, s.off, d.rng))
        else:
            eng.havoc_range(st, d, n, "memcpy")
    elif d is not NULL:
        eng.wild_write(st, ins, d)
    return setres(st, ins, d)


@model("memcpy", "llvm.memcpy", "__memcpy_chk")
def m_memcpy(eng, st, args, ins):
    return do_copy(eng, st, args, ins)


@model("memmove", "llvm.memmove")
def m_memmove(eng, st, args, ins):
    d, s, n = args[0], args[1], eng.as_int(args[2])
    cur = st.g.get("tkobj")
    shift = None
    if isinstance(cur, Ptr) and isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj == s.obj == cur.obj:
        F = st.facts
        end = st.gn["tkend"]
        if F.ge(end - s.off) and F.ge(s.off + n - end - 1):
            shift = d.off - s.off
            if not F.ge(shift):
                shift = None
            elif st.g.get("tksep") and not F.ge(end - 1 - s.off) and not F.eq0(st.gn["tkpos"] - s.off):
                st.g["tksep"] = False
    r = do_copy(eng, st, args, ins)
    if isinstance(cur, Ptr) and isinstance(d, Ptr) and d.obj == cur.obj:
        if shift is not None:
            st.gn["tkend"] = st.gn["tkend"] + shift
        o = st.mem[d.obj]
        # keep the log short: the buffer content is unknown text anyway
        eng.push(st, d.obj, ("h", None, LogKey("memmove")))
        if shift is not None:
            eng.push(st, d.obj, ("w", st.gn["tkend"], 1, ZERO, None))
        st.mem[d.obj] = st.mem[d.obj].but(texts=tuple(t for t in o.texts if st.facts.ge(d.off - t[0] - t[1] - 1)))
    return r


@model("memset", "llvm.memset", "__memset_chk")
def m_memset(eng, st, args, ins):
    d, v, n = args[0], eng.as_int(args[1]), eng.as_int(args[2])
    if n.const == 0:
        return setres(st, ins, d)
    if deref(eng, st, d, n, ins, True):
        o = st.mem[d.obj]
        whole = d.off.const == 0 and n == o.size
        split = v.const == 0 and not whole and n.const is not None and n.const <= 64 and cells_of(eng, int(n.const))
        for mon in eng.mons:
            for off, ty in split or ((ZERO, None),):
                mon.on_store(st, Ptr(d.obj, d.off + off, d.rng), None if ty is None else NULL if ty[0] == "ptr" else ZERO, n if ty is None else eng.m.types.size(ty), ins)
        if v.const == 0:
            if d.off.const == 0 and n == o.size:
                st.mem[d.obj] = o.but(base="zero", log=(), texts=())
            elif n.const is not None and n.const <= 64 and cells_of(eng, int(n.const)):
                for off, ty in cells_of(eng, int(n.const)):
                    eng.store(st, Ptr(d.obj, d.off + off, d.rng), NULL if ty[0] == "ptr" else ZERO, eng.m.types.size(ty), ins)
            else:
                keep = tuple(t for t in o.texts if st.facts.ge(d.off - t[0] - t[1] - 1) or st.facts.ge(t[0] - d.off - n))
                st.mem[d.obj] = o.but(texts=keep)
                eng.push(st, d.obj, ("z", d.off, n))
        else:
            eng.havoc_range(st, d, n, "memset")
    elif d is not NULL:
        eng.wild_write(st, ins, d)
    return setres(st, ins, d)


@model("qsort")
def m_qsort(eng, st, args, ins):
    p, n, sz = args[0], eng.as_int(args[1]), eng.as_int(args[2])
    if n.const == 0:
        return setres(st, ins, None)
    ev(eng, st, "qsort", ins, args=args)
    if deref(eng, st, p, n * sz, ins, True):
        eng.havoc_range(st, p, n * sz, "qsort")
    return setres(st, ins, None)


# --------------------------------------------------------------------------- files
def path_text(eng, st, p):
    ln, v = text_at(eng, st, p)
    return v


@model("fopen")
def m_fopen(eng, st, args, ins):
    deref(eng, st, args[0], ONE, ins, False)
    path = path_text(eng, st, args[0])
    mode = literal(eng, st, args[1]) or b"?"
    m = "w" if mode[:1] in (b"w", b"a") or b"+" in mode else "r"
    nul = st.copy()
    ev(eng, nul, "fopen", ins, path=path, mode=m, ok=False, fk=None, ptr=None)
    out = [(nul, NULL)]
    busy = path[0] == "cat" and path[-1][0] == "lit"
    kinds = ("good", "bad", "late") if m == "w" and not busy and eng.opt.get("write_faults") else ("good",)
    for i, k in enumerate(kinds):
        s = st.copy() if i < len(kinds) - 1 else st
        p = eng.new_heap(s, ins, P(1), "file")
        ab = tuple("any" if path[0] in ("any", "tok", "sub") else path)
        s.mem[p.obj] = s.mem[p.obj].but(aux=(m, k))
        ev(eng, s, "fopen", ins, path=path, mode=m, ok=True, fk=k, ptr=p)
        out.append((s, p))
    return out


def fileobj(eng, st, f, ins, what, **kw):
    """Checks the use of a stream; returns its object or None."""
    if f is NULL:
        eng.access(st, f, ONE, ins, False)
    if isinstance(f, Ptr) and f.obj in st.mem and st.mem[f.obj].kind == "file":
        if st.mem[f.obj].status != "live":
            ev(eng, st, "uaf", ins, ptr=f)
            raise Stop()
        ev(eng, st, what, ins, ptr=f, **kw)
        return st.mem[f.obj]
    return None


@model("fclose")
def m_fclose(eng, st, args, ins):
    f = args[0]
    if f is NULL:
        eng.access(st, f, ONE, ins, False)
    if isinstance(f, Ptr) and f.obj in st.mem and st.mem[f.obj].kind == "file":
        o = st.mem[f.obj]
        if o.status != "live":
            ev(eng, st, "dfree", ins, ptr=f)
            raise Stop()
        st.mem[f.obj] = o.but(status="freed")
        k = o.aux[1] if o.aux else "good"
        if o.aux and o.aux[0] == "r":
            ev(eng, st, "fclose", ins, ptr=f, ok=True, fk=k)
            return setres(st, ins, ZERO)
        out = []
        if k in ("good", "bad"):
            s = st.copy()
            ev(eng, s, "fclose", ins, ptr=f, ok=True, fk=k)
            out.append((s, ZERO))
        if k in ("late", "bad"):
            s = st.copy()
            ev(eng, s, "fclose", ins, ptr=f, ok=False, fk=k)
            out.append((s, P(-1)))
        return out
    ev(eng, st, "fclose", ins, ptr=f, ok=None, fk=None)
    return setres(st, ins, fresh("fclose"))


@model("ferror")
def m_ferror(eng, st, args, ins):
    o = fileobj(eng, st, args[0], ins, "ferror")
    if o is not None:
        if o.aux and o.aux[1] == "bad":
            return setres(st, ins, ONE)
        if o.aux and o.aux[0] == "w":
            return setres(st, ins, ZERO)
    return setres(st, ins, fresh("ferror"))


@model("feof", "fseek", "ftell", "rewind")
def m_feof(eng, st, args, ins):
    fileobj(eng, st, args[0], ins, "feof")
    return setres(st, ins, fresh("feof"))


@model("fflush")
def m_fflush(eng, st, args, ins):
    if args[0] is NULL:
        return setres(st, ins, fresh("fflush"))
    o = fileobj(eng, st, args[0], ins, "fflush")
    return setres(st, ins, wres(o))


@model("fread")
def m_fread(eng, st, args, ins):
    p, sz, n, f = args[0], eng.as_int(args[1]), eng.as_int(args[2]), args[3]
    fileobj(eng, st, f, ins, "fread")
    if deref(eng, st, p, sz * n, ins, True):
        eng.havoc_range(st, p, sz * n, "fread")
    r = fresh("fread", True, {"min": 0})
    st.facts = st.facts._with(n - r)
    zero = st.copy()
    f0 = zero.facts.add(mk_cmp("eq", r))
    out = []
    if f0 is not None:
        zero.facts = f0
        ev(eng, zero, "fread0", ins, ptr=f)
        out.append((zero, ZERO))
    f1 = st.facts.add(mk_cmp("ge", r - 1))
    if f1 is not None:
        st.facts = f1
        out.append((st, r))
    return out


@model("fgetc", "getc")
def m_fgetc(eng, st, args, ins):
    fileobj(eng, st, args[0], ins, "fread")
    r = fresh("fgetc", True, {"min": 0, "max": 255})
    s2 = st.copy()
    ev(eng, s2, "fread0", ins, ptr=args[0])
    return [(st, r), (s2, P(-1))]


@model("fgets")
def m_fgets(eng, st, args, ins):
    p, n, f = args[0], eng.as_int(args[1]), args[2]
    fileobj(eng, st, f, ins, "fread")
    s2 = st.copy()
    ev(eng, s2, "fread0", ins, ptr=f)
    if deref(eng, st, p, n, ins, True):
        eng.havoc_range(st, p, n, "fgets")
        ln = fresh("len", True, {"min": 0})
        st.facts = st.facts._with(n - 1 - ln)
        set_text(eng, st, p, ln, ("any", next_serial()))
    return [(st, p), (s2, NULL)]


def wres(o):
    if o is not None and o.aux and o.aux[1] == "bad":
        return P(-1)
    return fresh("wr", True, {"min": 0})


@model("fprintf")
def m_fprintf(eng, st, args, ins):
    o = fileobj(eng, st, args[0], ins, "fprintf", fmt=literal(eng, st, args[1]), args=args[2:])
    return setres(st, ins, wres(o))


@model("fputs")
def m_fputs(eng, st, args, ins):
    o = fileobj(eng, st, args[1], ins, "fprintf", fmt=b"%s", args=args[:1])
    return setres(st, ins, wres(o))


@model("fputc", "putc")
def m_fputc(eng, st, args, ins):
    o = fileobj(eng, st, args[1], ins, "fprintf", fmt=b"%c", args=args[:1])
    return setres(st, ins, wres(o))


@model("fwrite")
def m_fwrite(eng, st, args, ins):
    o = fileobj(eng, st, args[3], ins, "fprintf", fmt=b"%?", args=args[:1])
    return setres(st, ins, P(0) if o is not None and o.aux and o.aux[1] == "bad" else eng.as_int(args[2]))


@model("remove", "unlink")
def m_remove(eng, st, args, ins):
    deref(eng, st, args[0], ONE, ins, False)
    ev(eng, st, "remove", ins, path=path_text(eng, st, args[0]))
    return setres(st, ins, fresh("remove"))


@model("rename")
def m_rename(eng, st, args, ins):
    ev(eng, st, "rename", ins, a=path_text(eng, st, args[0]), b=path_text(eng, st, args[1]))
    return setres(st, ins, fresh("rename"))


@model("printf", "puts", "putchar", "vprintf", "vfprintf")
def m_printf(eng, st, args, ins):
    for a in args:
        if isinstance(a, Ptr) and a.obj in st.mem and st.mem[a.obj].status == "freed":
            eng.access(st, a, ONE, ins, False)
    ev(eng, st, "printf", ins, args=args)
    return setres(st, ins, fresh("printf"))


def fmt_bound(eng, st, fmt, args):
    """(upper bound of the formatted length as Poly or None)"""
    import re
    n, pos, i = ZERO, 0, 0
    for m in re.finditer(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGcsp%])", fmt):
        n = n + (m.start() - pos)
        pos = m.end()
        c = m.group(5).decode()
        if c == "%":
            n = n + 1
            continue
        a = args[i] if i < len(args) else None
        i += 1
        w = int(m.group(2)) if m.group(2) and m.group(2) != b"*" else 0
        pr = int(m.group(3)) if m.group(3) and m.group(3) != b"*" else 6
        if c in "diouxX":
            k = P(max(w, 21 if m.group(4) in (b"l", b"ll", b"z") else 11))
        elif c in "eEgG":
            k = P(max(w, pr + 10))
        elif c in "fF":
            k = P(max(w, pr + 311))
        elif c == "c":
            k = P(max(w, 1))
        elif c == "s":
            if not isinstance(a, Ptr):
                return None
            if m.group(3):
                k = P(max(w, pr))
            else:
                k = text_at(eng, st, a)[0] + w
        else:
            k = P(max(w, 20))
        n = n + k
    return n + (len(fmt) - pos)


@model("sprintf", "__sprintf_chk")
def m_sprintf(eng, st, args, ins):
    d, f = args[0], args[1]
    fmt = literal(eng, st, f)
    deref(eng, st, f, ONE, ins, False)
    ev(eng, st, "sprintf", ins, fmt=fmt, args=args[2:], dst=d)
    up = fmt_bound(eng, st, fmt, args[2:]) if fmt is not None else None
    exact = None
    if fmt is not None:
        import re
        toks = re.split(rb"(%s)", fmt)
        if all(b"%" not in t or t == b"%s" for t in toks):
            val, ln, i, good = ("lit", b""), ZERO, 0, True
            for t in toks:
                if t == b"%s":
                    if i < len(args) - 2 and isinstance(args[2 + i], Ptr):
                        l2, v2 = text_at(eng, st, args[2 + i])
                        val, ln = cat(val, v2), ln + l2
                        i += 1
                    else:
                        good = False
                elif t:
                    val, ln = cat(val, ("lit", t)), ln + len(t)
            if good:
                exact = (ln, val)
    if exact:
        ln, val = exact
    else:
        ln, val = fresh("len", True, {"min": 0}), ("any", next_serial())
        if up is not None:
            st.facts = st.facts._with(up - ln)
    if deref(eng, st, d, ln + 1 if eng.opt.get("check_sprintf") else ONE, ins, True):
        eng.havoc_range(st, d, ln + 1, "sprintf")
        put_zero(eng, st, d, ln)
        set_text(eng, st, d, ln, val)
    return setres(st, ins, ln)


@model("snprintf", "vsnprintf", "__vsnprintf_chk", "__snprintf_chk")
def m_snprintf(eng, st, args, ins):
    d, n = args[0], eng.as_int(args[1])
    if n.const == 0:
        return setres(st, ins, fresh("len", True, {"min": 0}))
    fmt = literal(eng, st, args[2]) if len(args) > 2 else None
    val = ("any", next_serial())
    if fmt == b"%s%s" and len(args) >= 5 and isinstance(args[3], Ptr) and isinstance(args[4], Ptr):
        l1, v1 = text_at(eng, st, args[3])
        l2, v2 = text_at(eng, st, args[4])
        val = cat(v1, v2)
    elif fmt == b"%s" and len(args) >= 4 and isinstance(args[3], Ptr):
        l1, val = text_at(eng, st, args[3])
    elif fmt is not None and fmt.count(b"%") == 1 and fmt.startswith(b"%s") and len(args) >= 4 and isinstance(args[3], Ptr):
        l1, v1 = text_at(eng, st, args[3])
        val = cat(v1, ("lit", fmt[2:]))
    ln = fresh("len", True, {"min": 0})
    st.facts = st.facts._with(n - 1 - ln)
    if deref(eng, st, d, n, ins, True):
        eng.havoc_range(st, d, n, "snprintf")
        set_text(eng, st, d, ln, val)
    return setres(st, ins, fresh("len", True, {"min": 0}))


# --------------------------------------------------------------------------- time, random numbers, mathematics
@model("time")
def m_time(eng, st, args, ins):
    r = fresh("time", True, {"time": True, "min": 0})
    ev(eng, st, "time", ins, val=r)
    if isinstance(args[0], Ptr) and deref(eng, st, args[0], P(8), ins, True):
        eng.store(st, args[0], r, 8, ins)
    return setres(st, ins, r)


@model("clock")
def m_clock(eng, st, args, ins):
    r = fresh("clock", True, {"time": True})
    ev(eng, st, "time", ins, val=r)
    return setres(st, ins, r)


@model("rand", "random")
def m_rand(eng, st, args, ins):
    ev(eng, st, "rand", ins)
    return setres(st, ins, fresh("rand", True, {"min": 0, "max": 2 ** 31 - 1}))


@model("srand", "srandom")
def m_srand(eng, st, args, ins):
    ev(eng, st, "srand", ins, val=args[0])
    return setres(st, ins, None)


@model("getenv")
def m_getenv(eng, st, args, ins):
    ev(eng, st, "env", ins)
    return setres(st, ins, UPtr("env"))


def fl(eng, st, v):
    return eng.as_num(v, False)


@model("exp", "llvm.exp")
def m_exp(eng, st, args, ins):
    return setres(st, ins, fexp(fl(eng, st, args[0])))


@model("log", "llvm.log")
def m_log(eng, st, args, ins):
    return setres(st, ins, flog(fl(eng, st, args[0])))


@model("log10")
def m_log10(eng, st, args, ins):
    return setres(st, ins, frac(flog(fl(eng, st, args[0])), flog(P(10))))


@model("log2")
def m_log2(eng, st, args, ins):
    return setres(st, ins, frac(flog(fl(eng, st, args[0])), flog(P(2))))


@model("pow", "llvm.pow")
def m_pow(eng, st, args, ins):
    return setres(st, ins, fpow(fl(eng, st, args[0]), fl(eng, st, args[1])))


@model("sqrt", "llvm.sqrt")
def m_sqrt(eng, st, args, ins):
    return setres(st, ins, fpow(fl(eng, st, args[0]), P(Fraction(1, 2))))


@model("fabs", "llvm.fabs", "abs", "labs", "llvm.abs")
def m_fabs(eng, st, args, ins):
    v = eng.as_num(args[0], ins.ty[0] != "f")
    if v.const is not None:
        return setres(st, ins, P(abs(v.const)))
    r = op("fabs", v, isint=v.isint())
    st.facts = st.facts._with(r)._with(r - v)._with(r + v)
    return setres(st, ins, r)


@model("fmod", "floor", "ceil", "tanh", "atanh", "sin", "cos", "tan", "rint", "round", "llvm.floor", "llvm.ceil", "llvm.fmuladd",
       "log1p", "expm1", "exp2")
def m_math(eng, st, args, ins):
    name = ins.extra[1]
    a = [fl(eng, st, x) for x in args]
    if name.startswith("llvm.fmuladd"):
        return setres(st, ins, a[0] * a[1] + a[2])
    return setres(st, ins, op(name, *a, isint=False))


@model("fmax", "fmin", "llvm.maxnum", "llvm.minnum", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")
def m_minmax(eng, st, args, ins):
    a, b = [eng.as_num(x, ins.ty[0] != "f") for x in args]
    name = ins.extra[1]
    outs = eng.assume2(st, mk_cmp("ge", a - b))
    mx = "max" in name
    return [(s, (a if tv == mx else b)) for s, tv in outs]


@model("exit", "_exit", "abort", "__assert_fail")
def m_exit(eng, st, args, ins):
    ev(eng, st, "exit", ins, val=args[0] if args else None)
    raise Stop()


@model("isspace", "isdigit", "isalpha", "toupper", "tolower")
def m_ctype(eng, st, args, ins):
    return setres(st, ins, fresh("ctype"))


def default(eng, st, args, ins):
    """Unknown external function: anything may happen to the objects it is given."""
    eng.opt.setdefault("_unknown", set()).add(ins.extra[1])
    for a in args:
        if isinstance(a, Ptr) and a.obj in st.mem and st.mem[a.obj].kind != "const":
            eng.havoc(st, a.obj, None, "ext")
    if ins.res:
        if ins.ty[0] == "ptr":
            return [(st.copy(), NULL), (st, UPtr("ext"))]
        return setres(st, ins, fresh("ext", ins.ty[0] != "f"))
    return None


def nop(eng, st, args, ins):
    return setres(st, ins, None) if not ins.res else setres(st, ins, fresh("i"))


def va(eng, st, args, ins):
    if isinstance(args[0], Ptr) and args[0].obj in st.mem:
        eng.havoc(st, args[0].obj, None, "va")
    return None


def lifetime(eng, st, args, ins):
    p = args[-1]
    if isinstance(p, Ptr) and p.obj in st.mem and p.off.const == 0 and st.mem[p.obj].kind == "stack":
        o = st.mem[p.obj]
        if o.log or o.texts:
            st.mem[p.obj] = o.but(log=(), texts=(), base=LogKey("undef:" + p.obj))
    return None


def expect(eng, st, args, ins):
    return setres(st, ins, args[0])


def intrinsic(name):
    for k, h in (("llvm.memcpy", TABLE["memcpy"]), ("llvm.memmove", TABLE["memmove"]), ("llvm.memset", TABLE["memset"]),
                 ("llvm.lifetime", lifetime), ("llvm.va_", va), ("llvm.dbg", nop), ("llvm.assume", nop), ("llvm.expect", expect),
                 ("llvm.experimental.noalias", nop), ("llvm.donothing", nop), ("llvm.trap", TABLE["abort"])):
        if name.startswith(k):
            return h
    n = ".".join(name.split(".")[:2])
    return TABLE.get(n)
