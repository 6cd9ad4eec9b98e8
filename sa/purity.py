"""C01 (inputs unmodified) and C02 (results depend only on instance and input).

Both rules run on the points-to/effect sets of pta.py over a client with one
call site per interface function, so that every codec function is analysed
once per role of its arguments.
"""
import itertools, os
import ir, pta
from ir import AnalysisBroken

H = os.path.join(ir.HERE, "harness")
ALLOWED = {"malloc", "calloc", "realloc", "free", "strtok"} | pta.OUT | {"fprintf"}


def role(ctx, mod):
    """driver function the context belongs to"""
    return ctx[0][0] if False else None


class Prog:
    def __init__(self, name, harness="pure_driver.c", repo=None):
        self.name = name
        self.m = ir.load(name, extra_src=(os.path.join(H, harness),))
        self.p = pta.PTA(self.m, "sa_driver")
        # context -> driver role: the driver calls each role function once
        self.roles = {}
        for (ctx, fn) in self.p.order:
            if fn.startswith("sa_"):
                if fn != "sa_driver":
                    self.roles[ctx] = fn
        self.by_role = {}
        for (ctx, fn) in self.p.order:
            for k in range(len(ctx), 0, -1):
                r = self.roles.get(ctx[:k])
                if r:
                    self.by_role.setdefault(r, []).append((ctx, fn))
                    break

    def effects(self, roles):
        for r in roles:
            for (ctx, fn) in self.by_role.get(r, ()):
                for b in self.m.funcs[fn].blocks.values():
                    for i in b.ins:
                        for e in self.p.effects(ctx, fn, i):
                            yield r, ctx, fn, i, e


INPUTS = {"sa_ptr_param": "parameter string", "sa_ptr_enc_in": "information vector", "sa_ptr_dec_in": "received vector",
          "sa_ptr_data": "data", "sa_ptr_poly": "CRC polynomial"}
OUTPUT = {"sa_enc": {"sa_ptr_enc_out"}, "sa_dec": {"sa_ptr_dec_out"}, "sa_calc": {"sa_ptr_buf"}, "sa_valid": {"sa_ptr_buf"},
          "sa_init": set(), "sa_close": set(), "sa_get": set(), "sa_set": set()}


def callers(p, ctx):
    return " <- ".join(f for (f, b, i) in reversed(ctx) if not f.startswith("sa_"))


def c01(programs):
    """-> violations, coverage"""
    bad, n, wr, fns = [], 0, 0, set()
    for nm, h in [(x, "pure_driver.c") for x in programs] + [("ca_polar_scl_bg", "crc_driver.c")]:
        g = Prog(nm, h)
        need = {"pure_driver.c": ["sa_init", "sa_enc", "sa_dec"], "crc_driver.c": ["sa_calc", "sa_valid"]}[h]
        for r in need:
            if len(g.by_role.get(r, [])) < 2:
                raise AnalysisBroken("%s: no code analysed for %s" % (nm, r))
        outw = set()
        for r, ctx, fn, i, (k, ts, nmx) in g.effects(list(OUTPUT)):
            n += 1
            fns.add((nm, fn))
            if k != "w":
                continue
            wr += 1
            for t in ts:
                if t[0] == "fn" or t[0][0] != "ext":
                    continue
                lab = t[0][1]
                if lab in OUTPUT[r]:
                    outw.add((r, lab))
                    continue
                what = "writes to the caller's %s" % INPUTS[lab] if lab in INPUTS else "writes to memory of %s, which is not its declared output" % lab
                bad.append((nm, "%s %s, reached by %s%s" % (g.m.where(i), what, r[3:], (": " + fn + " <- " + callers(g, ctx)) if ctx else "")))
        for r in need:
            for lab in OUTPUT[r]:
                if (r, lab) not in outw:
                    raise AnalysisBroken("%s: %s never writes its output: the pointer analysis lost it" % (nm, r))
    return bad, dict(effects=n, writes=wr, functions=len(fns))



# --------------------------------------------------------------------------- C02
def zero_test(f, v, seen=()):
    """condition value -> (tested operand, predicate) of an integer comparison with constant 0"""
    if v[0] != "v":
        return None
    d = f.defs.get(v[1])
    if d is None:
        return None
    if d.op == "icmp" and d.extra in ("eq", "ne") and d.args[1][0] in ("c", "null") and (d.args[1][0] == "null" or d.args[1][2] == 0):
        return d.args[0], d.extra
    return None


def defs_of(f):
    if not hasattr(f, "defs"):
        f.defs = {}
        f.uses = {}
        for b in f.blocks.values():
            for i in b.phis + b.ins:
                if i.res is not None:
                    f.defs[i.res] = i
                for o in operands(i):
                    if o[0] == "v":
                        f.uses.setdefault(o[1], []).append(i)
    return f.defs


def operands(i):
    if i.op == "call":
        return [a[1] for a in i.args if a[1] is not None]
    if i.op == "getelementptr":
        return [a[1] for a in i.args]
    return list(i.args)


def pexpr(f, v, d=0):
    """structural form of a pointer or index expression"""
    if v[0] != "v" or d > 12:
        return v[:2] if v[0] != "c" else ("c", v[2])
    i = defs_of(f).get(v[1])
    if i is None:
        return v
    if i.op == "getelementptr":
        return ("gep", i.ty, tuple(pexpr(f, a[1], d + 1) for a in i.args))
    if i.op == "load":
        return ("load", pexpr(f, i.args[0], d + 1))
    if i.op in ("sext", "zext", "freeze"):
        return pexpr(f, i.args[0], d + 1)
    return v


def edge_facts(f, blk):
    """(condition value, truth) known on entry of a block by dominating branches"""
    out = []
    b = blk
    while b != f.entry:
        p = f.idom.get(b)
        if p is None or p == b:
            break
        preds = [q for q in f.blocks[b].pred if q in f.idom]
        if len(preds) == 1:
            t = f.blocks[preds[0]].ins[-1]
            if t.op == "br" and t.args and len(set(t.extra)) == 2:
                out.append((t.args[0], t.extra[0] == b))
        b = p
    return out


def keeps_zero(g, ctx, fn, st):
    """a store that never changes whether the stored cell is zero"""
    f = g.m.funcs[fn]
    defs_of(f)
    pe = pexpr(f, st.args[1])

    def old_zero(facts):
        for cv, truth in facts:
            zt = zero_test(f, cv)
            if zt and zt[0][0] == "v":
                e = pexpr(f, zt[0])
                if e == ("load", pe):
                    return (zt[1] == "eq") == truth
        return None
    here = edge_facts(f, st.bb.name)
    v = st.args[0]
    arms = []
    d = f.defs.get(v[1]) if v[0] == "v" else None
    if d is not None and d.op == "phi":
        for blk, x in d.extra.items():
            t = f.blocks[blk].ins[-1]
            fs = edge_facts(f, blk)
            if t.op == "br" and t.args and len(set(t.extra)) == 2:
                fs = [(t.args[0], t.extra[0] == d.bb.name)] + fs
            arms.append((x, fs))
    elif d is not None and d.op == "select":
        arms = [(d.args[1], [(d.args[0], True)] + here), (d.args[2], [(d.args[0], False)] + here)]
    else:
        arms = [(v, here)]
    for x, fs in arms:
        z = old_zero(fs)
        if z is None or z != (x[0] == "c" and x[2] == 0):
            return False
    return True


def only_zero_tested(g, fn, ld):
    f = g.m.funcs[fn]
    defs_of(f)
    todo, seen = [ld], set()
    while todo:
        i = todo.pop()
        if i.res in seen:
            continue
        seen.add(i.res)
        for u in f.uses.get(i.res, []):
            if u.op in ("sext", "zext", "freeze"):
                todo.append(u)
            elif u.op == "icmp" and u.extra in ("eq", "ne") and any(a[0] == "c" and a[2] == 0 for a in u.args):
                pass
            else:
                return False
    return True


def key(t):
    return (t[0], ("r", t[2]) if t[1] is None else t[1])


def overlap(a, b):
    """may two targets share a cell"""
    if a[0] != b[0]:
        return False
    if a[1] is not None and b[1] is not None:
        return a[1] == b[1]
    la, ha = (a[1], a[1] + 1) if a[1] is not None else (a[2], a[3])
    lb, hb = (b[1], b[1] + 1) if b[1] is not None else (b[2], b[3])
    return (ha is None or lb < ha) and (hb is None or la < hb)


class Touch:
    """must-have-been-written-in-this-call analysis of one role under one mode"""
    def __init__(self, g, role, mode):
        self.g, self.role, self.mode = g, role, mode
        self.entry, self.exit, self.exitc = {}, {}, {}
        self.exposed = []
        root = [(c, f) for c, f in g.by_role[role] if f == role][0]
        self.entry[root] = frozenset()
        self.live = {root}
        work = True
        n = 0
        while work:
            work = False
            n += 1
            if n > 100:
                raise AnalysisBroken("touch analysis does not converge")
            for cf in [x for x in g.by_role[role] if x in self.entry]:
                if self.func(cf, None):
                    work = True
        for cf in [x for x in g.by_role[role] if x in self.entry]:
            self.func(cf, self.exposed)

    def covered(self, S, t):
        o = t[0]
        varsize = o[0] != "glob" and o not in self.g.inst
        for (ob, k) in S:
            if ob != o:
                continue
            if varsize:
                return True
            pos = k[1] if isinstance(k, tuple) else k
            if t[1] is not None:
                if k == t[1] or (isinstance(k, tuple) and pos <= t[1]):
                    return True
            else:
                if isinstance(k, tuple) and pos <= t[2]:
                    return True
                if pos >= t[2] and (t[3] is None or pos < t[3]):
                    return True
        return False

    def prune(self, ctx, fn, t):
        """feasible successors of a terminator under the mode"""
        if t.op == "br" and t.args:
            k = self.g.cond_key(ctx, fn, t.args[0])
            if k is not None and k[0] in self.mode:
                v = self.mode[k[0]]
                return [t.extra[0] if v == k[1] else t.extra[1]]
        return None

    def func(self, cf, rec):
        ctx, fn = cf
        f = self.g.m.funcs[fn]
        IN = {f.entry: self.entry[cf]}
        order = f.rpo
        edge = {}
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            for b in order:
                blk = f.blocks[b]
                if b != f.entry:
                    ins = [edge[(p, b)] for p in set(blk.pred) if edge.get((p, b)) is not None]
                    if not ins:
                        continue
                    IN[b] = frozenset.intersection(*ins)
                    if blk.loop_head:
                        # array cells written somewhere in the loop: which round reads what is not decided here
                        IN[b] |= self.loop_arrays(ctx, fn, b)
                S = self.block(ctx, fn, blk, IN[b], None, None)
                outs = self.prune(ctx, fn, blk.ins[-1]) or blk.succ
                Sx = S
                if blk.loop_head and S is not None:
                    # the code after a loop runs after at least one round of it
                    body = f.loops[b]
                    if any(s not in body for s in outs) and any(s in body for s in outs):
                        bk = [edge[(p, b)] for p in set(blk.pred) if p in body and edge.get((p, b)) is not None]
                        Sx = self.block(ctx, fn, blk, frozenset.intersection(*bk), None, None) if bk else None
                for s in outs:
                    v = Sx if blk.loop_head and s not in f.loops[b] else S
                    if v is not None:
                        v = v | self.by_result(ctx, fn, blk.ins[-1], s)
                    if edge.get((b, s)) != v:
                        edge[(b, s)] = v
                        changed = True
            if rounds > 60:
                raise AnalysisBroken("touch analysis does not converge in " + fn)
        chg = [False]
        rets = {}
        for b in order:
            if b in IN:
                S = self.block(ctx, fn, f.blocks[b], IN[b], rec, chg)
                t = f.blocks[b].ins[-1]
                if t.op == "ret" and S is not None:
                    arms = []
                    d = f.defs.get(t.args[0][1]) if t.args and t.args[0][0] == "v" else None
                    if d is not None and d.op == "phi" and d.bb.name == b:
                        for p, v in d.extra.items():
                            E = edge.get((p, b))
                            if E is not None:
                                arms.append((E | (S - IN[b]), v, p))
                    else:
                        arms = [(S, t.args[0] if t.args else None, b)]
                    for E, v, p in arms:
                        for c in self.classes(f, v, p):
                            rets[c] = E if c not in rets else rets[c] & E
        if not rets:
            return chg[0]
        if self.g.p.comp.get(fn) is None:
            rets = {c: frozenset(k for k in E if not (k[0][0] == "stack" and k[0][1] == ctx and k[0][2][0] == fn)) for c, E in rets.items()}
        if self.exitc.get(cf) != rets:
            self.exitc[cf] = rets
            self.exit[cf] = frozenset.intersection(*rets.values())
            chg[0] = True
        return chg[0]

    def classes(self, f, v, blk):
        if v is None or v[0] == "undef":
            return ("z", "nz")
        if v[0] in ("c", "null"):
            return ("z",) if v[0] == "null" or v[2] == 0 else ("nz",)
        for cv, truth in edge_facts(f, blk):
            zt = zero_test(f, cv)
            if zt and zt[0] == v:
                return ("z",) if (zt[1] == "eq") == truth else ("nz",)
        return ("z", "nz")

    def by_result(self, ctx, fn, t, s):
        """what a call certainly wrote, given that its result was (not) zero on this edge"""
        f = self.g.m.funcs[fn]
        if t.op != "br" or not t.args or len(set(t.extra)) < 2:
            return frozenset()
        zt = zero_test(f, t.args[0])
        if not zt or zt[0][0] != "v":
            return frozenset()
        d = f.defs.get(zt[0][1])
        if d is None or d.op != "call":
            return frozenset()
        c = "z" if (zt[1] == "eq") == (t.extra[0] == s) else "nz"
        out = None
        for h in self.g.p.targets(ctx, fn, d):
            e = self.exitc.get((self.g.p.callee_ctx(ctx, fn, d, h), h), {}).get(c)
            if e is None:
                return frozenset()
            out = e if out is None else out & e
        return out or frozenset()

    def loop_arrays(self, ctx, fn, h):
        c = self.__dict__.setdefault("_la", {})
        if (ctx, fn, h) not in c:
            f = self.g.m.funcs[fn]
            out = set()
            for b in f.loops[h]:
                for i in f.blocks[b].ins:
                    for (k, ts, nm) in self.g.p.effects(ctx, fn, i):
                        if k == "w":
                            out |= {key(t) for t in ts if t[0] != "fn" and t[1] is None}
                    if i.op == "call":
                        for g2 in self.g.p.targets(ctx, fn, i):
                            if g2 in self.g.m.funcs:
                                out |= self.all_arrays(self.g.p.callee_ctx(ctx, fn, i, g2), g2, set())
            c[(ctx, fn, h)] = frozenset(out)
        return c[(ctx, fn, h)]

    def all_arrays(self, ctx, fn, seen):
        if (ctx, fn) in seen:
            return set()
        seen.add((ctx, fn))
        out = set()
        for b in self.g.m.funcs[fn].blocks.values():
            for i in b.ins:
                for (k, ts, nm) in self.g.p.effects(ctx, fn, i):
                    if k == "w":
                        out |= {key(t) for t in ts if t[0] != "fn" and t[1] is None}
                if i.op == "call":
                    for g2 in self.g.p.targets(ctx, fn, i):
                        if g2 in self.g.m.funcs:
                            out |= self.all_arrays(self.g.p.callee_ctx(ctx, fn, i, g2), g2, seen)
        return out

    def block(self, ctx, fn, blk, S, rec, chg):
        g = self.g
        for i in blk.ins:
            if S is None:
                return None
            if i.op == "alloca":
                ob = ("stack", ctx, (fn, i.res))
                S = frozenset(k for k in S if k[0] != ob)
                continue
            if i.op == "call":
                for h in g.p.targets(ctx, fn, i):
                    if h in g.m.funcs:
                        nc = g.p.callee_ctx(ctx, fn, i, h)
                        if chg is not None:
                            old = self.entry.get((nc, h))
                            new = S if old is None else old & S
                            if new != old:
                                self.entry[(nc, h)] = new
                                chg[0] = True
                        ex = self.exit.get((nc, h))
                        S = S | ex if ex is not None else None
                        if S is None:
                            return None
                    elif h in pta.ALLOC and i.res is not None:
                        ob = ("heap", ctx, (fn, i.bb.name, i.idx))
                        S = frozenset(k for k in S if k[0] != ob and not (k[0][0] == "carve" and k[0][1] == ob))
                        if h == "calloc":
                            S = S | {(ob, ("r", 0))}
            for (k, ts, nm) in g.p.effects(ctx, fn, i):
                if k == "r" and rec is not None and not (nm or "").startswith("llvm."):
                    for t in ts:
                        if t[0] != "fn" and not self.covered(S, t):
                            rec.append((ctx, fn, i, t))
                elif k == "w":
                    ts = [t for t in ts if t[0] != "fn"]
                    if len(ts) == 1 or all(t[1] is None or not (t[0][0] == "glob" or t[0] in g.inst) for t in ts):
                        S = S | {key(t) for t in ts}
        return S


class Prog2(Prog):
    def __init__(self, name):
        Prog.__init__(self, name)
        self.written = {}
        self.wsites = {}
        for f in self.m.funcs.values():
            defs_of(f)
        for r, ctx, fn, i, (k, ts, nm) in self.effects(list(self.by_role)):
            if k == "w":
                for t in ts:
                    if t[0] != "fn":
                        self.written.setdefault(r, set()).add(t)
                        self.wsites.setdefault((r, t), []).append((ctx, fn, i))
        self.inst = {t[0] for t in self.p.load_from((("glob", "sa_inst"), 0, 0, None)) if t[0][0] == "heap"}
        if not self.inst:
            raise AnalysisBroken("%s: no codec instance found" % name)
        self.call_w = set().union(*[self.written.get(r, set()) for r in ("sa_enc", "sa_dec")])

    def cond_key(self, ctx, fn, v):
        """branch condition on an instance field enc/dec never write -> (key, truth that takes the first successor when key is true)"""
        f = self.m.funcs[fn]
        defs_of(f)
        if v[0] != "v" or v[1] not in f.defs:
            return None
        d = f.defs[v[1]]
        if d.op != "icmp" or d.args[1][0] != "c":
            return None
        l = d.args[0]
        l = f.defs.get(l[1]) if l[0] == "v" else None
        if l is None or l.op != "load":
            return None
        ts = [t for t in self.p.val(ctx, fn, l.args[0])]
        if len(ts) != 1 or ts[0][0] == "fn" or ts[0][1] is None or ts[0][0] not in self.inst:
            return None
        if any(overlap(ts[0], w) for w in self.call_w):
            return None
        pr, c = d.extra, d.args[1][2]
        neg = {"ne": "eq", "sle": "sgt", "slt": "sge"}
        if pr in neg:
            return (ts[0][:2], neg[pr], c), False
        return (ts[0][:2], pr, c), True

    def modes(self):
        ks = set()
        for r in ("sa_enc", "sa_dec", "sa_get"):
            for ctx, fn in self.by_role.get(r, ()):
                for b in self.m.funcs[fn].blocks.values():
                    t = b.ins[-1]
                    if t.op == "br" and t.args:
                        k = self.cond_key(ctx, fn, t.args[0])
                        if k:
                            ks.add(k[0])
        ks = sorted(ks, key=repr)[:6]
        return [dict(zip(ks, v)) for v in itertools.product((True, False), repeat=len(ks))]


def name_obj(g, o):
    if o[0] == "glob":
        return "the global " + o[1]
    if o[0] == "carve":
        return "working memory carved at " + g.m.where(g.m.funcs[o[3][0]].defs[o[3][1]]) if hasattr(g.m.funcs[o[3][0]], "defs") else "working memory"
    if o[0] == "heap":
        fn, b, k = o[2]
        return "the memory allocated at " + g.m.where(g.m.funcs[fn].blocks[b].ins[k])
    if o[0] == "stack":
        return "the local " + o[2][1] + " of " + o[2][0]
    return "the caller's memory " + o[1]


def root(o):
    return o[1] if o[0] == "carve" else o


def c02(programs):
    bad, n_reads, n_modes, n_calls, ctxs = [], 0, 0, 0, 0
    exempt = set()
    for nm in programs:
        g = Prog2(nm)
        for f in g.m.funcs.values():
            defs_of(f)
        init_objs = {o for (o, _) in [(t[0], 0) for t in g.written.get("sa_init", ())]}
        alloc_role = {}
        for r, ctx, fn, i, (k, ts, h) in g.effects(list(g.by_role)):
            if k == "call":
                if h in pta.ALLOC:
                    alloc_role[("heap", ctx, (fn, i.bb.name, i.idx))] = r
                if r in ("sa_enc", "sa_dec", "sa_get") and not h.startswith("sa_"):
                    n_calls += 1
                    if h not in ALLOWED:
                        bad.append((nm, "%s calls %s: the result of %s may depend on more than the instance and the input" % (g.m.where(i), h, r[3:])))
        ctxs += sum(len(v) for v in g.by_role.values())
        modes = g.modes()
        seen = set()
        for r in ("sa_enc", "sa_dec"):
            for ctx, fn in g.by_role[r]:
                f = g.m.funcs[fn]
                for b in f.blocks.values():
                    und = {ph.res for ph in b.phis if any(v[0] == "undef" for v in ph.args)}
                    for i in b.ins:
                        if any(o[0] == "undef" or (o[0] == "v" and o[1] in und) for o in operands(i)) and i.op not in ("ret",):
                            w = "%s uses a local variable that no path has set" % g.m.where(i)
                            if w not in seen:
                                seen.add(w)
                                bad.append((nm, w + " (%s)" % r[3:]))
        for mode in modes:
            n_modes += 1
            T = {r: Touch(g, r, mode) for r in ("sa_enc", "sa_dec", "sa_get")}
            wr = set()
            for r in ("sa_enc", "sa_dec"):
                for t in g.written.get(r, ()):
                    if any((c, f) in T[r].entry and g.block_live(T[r], c, f, i) for c, f, i in g.wsites[(r, t)]):
                        wr.add(t)
            everw = set().union(*g.written.values())
            for r in T:
                n_reads += len(T[r].exposed)
                for ctx, fn, i, t in T[r].exposed:
                    o = t[0]
                    if fn.startswith("sa_"):
                        continue
                    why = None
                    if o[0] == "glob":
                        if o[1].startswith("sa_"):
                            continue
                        if any(overlap(t, w) for w in everw):
                            why = "reads %s, which earlier calls or other instances change, before setting it in the same call" % name_obj(g, o)
                        gl = g.m.globals.get(o[1])
                    elif o[0] == "ext":
                        if o[1] in ("sa_ptr_enc_out", "sa_ptr_dec_out"):
                            why = "reads the caller's output memory before writing it"
                    elif o[0] == "stack":
                        why = "reads %s before anything was stored in it" % name_obj(g, o)
                    else:
                        ar = alloc_role.get(root(o))
                        if ar in ("sa_enc", "sa_dec", "sa_get"):
                            why = "reads %s before anything was stored in it" % name_obj(g, o)
                        else:
                            ws = [w for w in wr if overlap(t, w)]
                            if ws:
                                if i.op == "load" and only_zero_tested(g, fn, i) and all(
                                        x[2].op == "store" and keeps_zero(g, *x) for rr in ("sa_enc", "sa_dec") for w in ws for x in g.wsites.get((rr, w), ())):
                                    exempt.add((nm, g.m.where(i)))
                                    continue
                                x = [x for rr in ("sa_enc", "sa_dec") for w in ws for x in g.wsites.get((rr, w), ())][0]
                                why = "reads %s before setting it in the same call, but encoding or decoding changes it at %s" % (name_obj(g, o), g.m.where(x[2]))
                            elif not any(overlap(t, w) for rr in ("sa_init", "sa_set") for w in g.written.get(rr, ())):
                                why = "reads %s before anything was stored in it" % name_obj(g, o)
                    if why and (g.m.where(i), why) not in seen:
                        seen.add((g.m.where(i), why))
                        bad.append((nm, "%s %s (%s)" % (g.m.where(i), why, r[3:])))
    return bad, dict(reads_before_write=n_reads, modes=n_modes, library_calls=n_calls, contexts=ctxs, exempt=sorted(exempt))


def block_live(self, T, ctx, fn, i):
    """is the block of i reachable under the mode"""
    f = self.m.funcs[fn]
    k = ("live", ctx, fn)
    c = T.__dict__.setdefault("_live", {})
    if k not in c:
        seen, st = {f.entry}, [f.entry]
        while st:
            b = st.pop()
            t = f.blocks[b].ins[-1]
            for s in T.prune(ctx, fn, t) or f.blocks[b].succ:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        c[k] = seen
    return i.bb.name in c[k]


Prog2.block_live = block_live

if __name__ == "__main__":
    import time
    t = time.time()
    print(c01(ir.PROGRAMS), time.time() - t)
    b, c = c02(ir.PROGRAMS)
    for x in b:
        print(x)
    print(c, time.time() - t)
