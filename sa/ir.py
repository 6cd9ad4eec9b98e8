"""Builds LLVM IR of the current /repo sources and parses it into a small in-memory form.

Nothing is executed: clang emits IR, llvm-link joins the units of a program,
opt only promotes locals to SSA form and cleans up the control flow graph.
"""
import os, re, subprocess, sys, tempfile, hashlib, shutil
from fractions import Fraction

REPO = os.environ.get("SA_REPO", "/repo")
CLANG, OPT, LINK = "/usr/bin/clang-18", "/usr/bin/opt-18", "/usr/bin/llvm-link-18"
HERE = os.path.dirname(os.path.abspath(__file__))


class AnalysisBroken(Exception):
    """The analysis itself cannot run (build failure, vanished anchor...)."""


# --------------------------------------------------------------------------- cmake
def cmake_targets(repo=None):
    """{target: (sources, flags)} from the top level CMakeLists.txt."""
    repo = repo or REPO
    txt = open(os.path.join(repo, "CMakeLists.txt")).read()
    txt = re.sub(r"#[^\n]*", "", txt)
    var, common, tg, opts = {}, [], {}, {}
    var["CMAKE_SOURCE_DIR"] = repo

    def exp(words):
        out = []
        for w in words:
            m = re.fullmatch(r"\$\{(\w+)\}", w)
            if m:
                v = var.get(m.group(1), [])
                out += v if isinstance(v, list) else [v]
            else:
                out.append(re.sub(r"\$\{(\w+)\}", lambda k: var[k.group(1)] if isinstance(var.get(k.group(1)), str) else "", w))
        return out
    for cmd, args in re.findall(r"(\w+)\s*\(([^)]*)\)", txt):
        a = exp(args.split())
        c = cmd.lower()
        if c == "set" and a:
            var[a[0]] = a[1:]
        elif c == "add_compile_options":
            common += a
        elif c == "add_executable":
            tg[a[0]] = [s for s in a[1:] if s.endswith(".c")]
        elif c == "target_compile_options":
            opts.setdefault(a[0], []).extend(x for x in a[1:] if x.startswith("-"))
        elif c == "add_compile_definitions":
            common += ["-D" + x for x in a]
        elif c == "target_compile_definitions":
            opts.setdefault(a[0], []).extend("-D" + x for x in a[1:] if x not in ("PUBLIC", "PRIVATE"))
    res = {}
    for t, src in tg.items():
        seen = []
        for s in src:
            if s not in seen:
                seen.append(s)
        res[t] = (seen, [x for x in common if x.startswith("-")] + opts.get(t, []))
    return res


PROGRAMS = ["dtrm0_bg", "dtrm1_bg", "dtrm_glp_bg", "ca_polar_scl_bg"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def build_ir(name, extra_flags=(), force_include=None, passes="function(sroa,simplifycfg)", repo=None, extra_src=(), drop_src=()):
    """Text of the linked, cleaned up IR of a program."""
    repo = repo or REPO
    if name == "loadsrf":
        src = ["Octave/loadsrf.c", "Octave/ui_octave_txt.c", "common/spf_par.c"]
        flags = ["-I" + os.path.join(HERE, "stubs")]
    else:
        tg = cmake_targets(repo)
        if name not in tg:
            raise AnalysisBroken("program %s is not in CMakeLists.txt" % name)
        src, flags = tg[name]
    d = tempfile.mkdtemp(prefix="sa_ir_")
    try:
        lls, procs = [], []
        for i, s in enumerate([x for x in src if os.path.basename(x) not in drop_src] + list(extra_src)):
            p = s if os.path.isabs(s) else os.path.join(repo, s)
            if not os.path.exists(p):
                raise AnalysisBroken("source %s is missing" % s)
            o = os.path.join(d, "%d.ll" % i)
            cmd = [CLANG, "-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names",
                   "-w", "-fno-builtin", "-D__NO_INLINE__", "-U__OPTIMIZE__", "-ffp-contract=off",
                   "-I" + os.path.join(repo, "lib"), "-I" + repo] + list(flags) + list(extra_flags)
            if force_include:
                cmd += ["-include", force_include]
            cmd += ["-S", "-emit-llvm", p, "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            lls.append(o)
        for cmd, p in procs:
            out, _ = p.communicate()
            if p.returncode != 0:
                raise AnalysisBroken("does not compile: %s\n%s" % (" ".join(cmd), out[-3000:]))
        linked = os.path.join(d, "l.ll")
        run([LINK, "-S", "-o", linked] + lls)
        out = os.path.join(d, "o.ll")
        run([OPT, "-S", "-passes=" + passes, linked, "-o", out])
        return open(out).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------- types
class Types:
    def __init__(self):
        self.structs = {}
        self._sz = {}

    def size_align(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._size_align(t)
        return r

    def _size_align(self, t):
        k = t[0]
        if k == "i":
            b = max(1, (t[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == "f":
            return t[1] // 8, t[1] // 8
        if k == "ptr":
            return 8, 8
        if k == "arr":
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == "vec":
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == "st":
            fs = self.fields(t)
            if fs is None:
                return 1, 1
            off, al = 0, 1
            for f in fs:
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == "lit":
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        return 0, 1

    def size(self, t):
        return self.size_align(t)[0]

    def fields(self, t):
        if t[0] == "lit":
            return t[1]
        return self.structs.get(t[1])

    def field_off(self, t, i):
        fs = self.fields(t)
        off = 0
        for j, f in enumerate(fs):
            s, a = self.size_align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise AnalysisBroken("field index")


TOK = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-\w.$]+)|![\w.]*|#\d+|-?0x[0-9A-Fa-fKMLHR]+|-?\d+\.\d*(?:[eE][+-]?\d+)?|-?\d+|[\w.]+|\.\.\.|[\[\]{}()<>,=*:|])')


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise AnalysisBroken("cannot tokenize IR: %r" % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


class P:
    """Cursor over tokens."""
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise AnalysisBroken("IR: expected %s got %s in %s" % (x, y, " ".join(self.t)))

    def type(self):
        x = self.next()
        if x == "void":
            t = ("void",)
        elif x == "ptr":
            t = ("ptr",)
        elif x == "double":
            t = ("f", 64)
        elif x == "float":
            t = ("f", 32)
        elif x == "x86_fp80":
            t = ("f", 128)
        elif x == "metadata" or x == "label":
            t = (x,)
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "<":
            if self.peek() == "{":
                raise AnalysisBroken("packed struct")
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = ("vec", n, e)
        elif x == "{":
            fs = []
            if not self.accept("}"):
                fs.append(self.type())
                while self.accept(","):
                    fs.append(self.type())
                self.expect("}")
            t = ("lit", tuple(fs))
        elif x[0] == "%":
            t = ("st", x[1:])
        else:
            raise AnalysisBroken("IR type %s in %s" % (x, " ".join(self.t)))
        while self.peek() == "(":        # function type in varargs calls
            depth = 0
            while True:
                y = self.next()
                if y == "(":
                    depth += 1
                if y == ")":
                    depth -= 1
                    if depth == 0:
                        break
            t = ("fn", t)
        return t


ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
         "returned", "immarg", "inreg", "nofree", "nest", "swiftself", "allocptr", "noreturn", "dso_local", "tail", "musttail",
         "notail", "fastcc", "ccc", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "allocalign", "noext", "writable"}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTRS:
            p.next()
        elif x in ("align", "dereferenceable", "dereferenceable_or_null", "captures", "memory", "sret", "byval", "elementtype", "range", "dead_on_unwind", "initializes"):
            p.next()
            if p.accept("("):
                d = 1
                while d:
                    y = p.next()
                    d += (y == "(") - (y == ")")
            elif x == "align":
                p.next()
        else:
            return


def fconst(x, ty):
    if x.startswith("0x") or x.startswith("-0x"):
        import struct
        h = x.split("x")[1]
        if h[0] in "KMLHR":
            return None
        v = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    else:
        v = float(x)
    return v


class Instr:
    __slots__ = ("op", "res", "ty", "args", "extra", "dbg", "text", "fn", "bb", "idx")

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ("name", "ins", "phis", "fn", "succ", "pred", "loop_head", "backedges")


class Func:
    def __init__(self):
        self.blocks, self.order, self.params = {}, [], []


# operand forms: ("v", name) | ("c", type, int) | ("fc", float) | ("g", name) | ("null",) | ("undef", type) | ("zero", type)
#              | ("gep", srctype, [operands], ) | ("cast", op, operand) | ("agg", [..]) | ("str", bytes)
def parse_value(p, ty):
    x = p.next()
    if x == "splat":
        raise AnalysisBroken("splat")
    if x[0] == "%":
        return ("v", x[1:])
    if x[0] == "@":
        return ("g", x[1:].strip('"'))
    if x == "null":
        return ("null",)
    if x in ("undef", "poison"):
        return ("undef", ty)
    if x == "zeroinitializer":
        return ("zero", ty)
    if x == "true":
        return ("c", ty, 1)
    if x == "false":
        return ("c", ty, 0)
    if x.startswith('c"'):
        b, s, i = bytearray(), x[2:-1], 0
        while i < len(s):
            if s[i] == "\\":
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(ord(s[i]))
                i += 1
        return ("str", bytes(b))
    if x == "getelementptr":
        while p.peek() in ("inbounds", "nusw", "nuw", "inrange"):
            p.next()
        p.expect("(")
        st = p.type()
        ops = []
        while p.accept(","):
            t = p.type()
            ops.append((t, parse_value(p, t)))
        p.expect(")")
        return ("gep", st, ops)
    if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
        p.expect("(")
        t = p.type()
        v = parse_value(p, t)
        p.expect("to")
        t2 = p.type()
        p.expect(")")
        return ("cast", x, t, v, t2)
    if x in ("[", "{", "<"):
        end = {"[": "]", "{": "}", "<": ">"}[x]
        out = []
        if not p.accept(end):
            while True:
                t = p.type()
                out.append((t, parse_value(p, t)))
                if not p.accept(","):
                    break
            p.expect(end)
        return ("agg", out)
    if ty[0] == "f":
        return ("fc", fconst(x, ty))
    if re.fullmatch(r"-?\d+", x):
        return ("c", ty, int(x))
    raise AnalysisBroken("IR operand %s in %s" % (x, " ".join(p.t)))


CASTS = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}


def parse_instr(line, fn):
    ins = Instr()
    ins.text = line.strip()
    ins.fn = fn
    ins.dbg = None
    ins.extra = None
    m = re.search(r", !dbg !(\d+)", line)
    if m:
        ins.dbg = int(m.group(1))
    # strip metadata attachments
    core = re.sub(r",\s*!(?:dbg|tbaa|llvm\.loop|prof|range|srcloc|tbaa\.struct|nonnull|noundef|unpredictable|annotation|heapallocsite|align|nosanitize|DIAssignID) !\w+", "", line)
    p = P(tokenize(core))
    ins.res = None
    if p.peek(1) == "=":
        ins.res = p.next()[1:]
        p.next()
    while p.peek() in ("tail", "musttail", "notail"):
        p.next()
    op = p.next()
    ins.op = op
    if op in BIN:
        while p.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            p.next()
        t = p.type()
        a = parse_value(p, t)
        p.expect(",")
        b = parse_value(p, t)
        ins.ty, ins.args = t, [a, b]
    elif op == "fneg":
        while p.peek() in ATTRS:
            p.next()
        t = p.type()
        ins.ty, ins.args = t, [parse_value(p, t)]
    elif op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        v = parse_value(p, t)
        p.expect("to")
        ins.extra = t
        ins.ty, ins.args = p.type(), [v]
    elif op == "icmp" or op == "fcmp":
        while p.peek() in ATTRS or p.peek() == "samesign":
            p.next()
        pred = p.next()
        t = p.type()
        a = parse_value(p, t)
        p.expect(",")
        b = parse_value(p, t)
        ins.ty, ins.args, ins.extra = t, [a, b], pred
    elif op == "alloca":
        p.accept("inalloca")
        t = p.type()
        n = ("c", ("i", 32), 1)
        if p.accept(",") and p.peek() != "align":
            tt = p.type()
            n = parse_value(p, tt)
        ins.ty, ins.args = t, [n]
    elif op == "load":
        p.accept("volatile")
        t = p.type()
        p.expect(",")
        pt = p.type()
        ins.ty, ins.args = t, [parse_value(p, pt)]
    elif op == "store":
        p.accept("volatile")
        t = p.type()
        v = parse_value(p, t)
        p.expect(",")
        pt = p.type()
        ins.ty, ins.args = t, [v, parse_value(p, pt)]
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nusw", "nuw"):
            p.next()
        st = p.type()
        ops = []
        while p.accept(","):
            t = p.type()
            ops.append((t, parse_value(p, t)))
        ins.ty, ins.args, ins.extra = st, ops, None
    elif op == "br":
        if p.peek() == "label":
            p.next()
            ins.ty, ins.args, ins.extra = None, [], [p.next()[1:]]
        else:
            t = p.type()
            c = parse_value(p, t)
            p.expect(",")
            p.expect("label")
            a = p.next()[1:]
            p.expect(",")
            p.expect("label")
            b = p.next()[1:]
            ins.ty, ins.args, ins.extra = t, [c], [a, b]
    elif op == "switch":
        t = p.type()
        v = parse_value(p, t)
        p.expect(",")
        p.expect("label")
        d = p.next()[1:]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t2 = p.type()
            c = parse_value(p, t2)
            p.expect(",")
            p.expect("label")
            cases.append((c[2], p.next()[1:]))
        ins.ty, ins.args, ins.extra = t, [v], (d, cases)
    elif op == "ret":
        t = p.type()
        ins.ty = t
        ins.args = [] if t[0] == "void" else [parse_value(p, t)]
    elif op == "phi":
        while p.peek() in ATTRS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = parse_value(p, t)
            p.expect(",")
            inc[p.next()[1:]] = v
            p.expect("]")
            if not p.accept(","):
                break
        ins.ty, ins.args, ins.extra = t, list(inc.values()), inc
    elif op == "select":
        while p.peek() in ATTRS:
            p.next()
        ct = p.type()
        c = parse_value(p, ct)
        p.expect(",")
        t = p.type()
        a = parse_value(p, t)
        p.expect(",")
        t2 = p.type()
        b = parse_value(p, t2)
        ins.ty, ins.args = t, [c, a, b]
    elif op == "call":
        skip_attrs(p)
        t = p.type()
        skip_attrs(p)
        callee = parse_value(p, ("ptr",))
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                at = p.type()
                skip_attrs(p)
                if at[0] == "metadata":
                    # skip to matching , or )
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        y = p.next()
                        d += (y == "(") - (y == ")")
                    args.append((at, None))
                else:
                    args.append((at, parse_value(p, at)))
                if not p.accept(","):
                    break
            p.expect(")")
        ins.ty, ins.args, ins.extra = t, args, callee
        if t[0] == "fn":
            ins.ty = t[1]
    elif op == "unreachable":
        ins.ty, ins.args = None, []
    elif op == "freeze":
        t = p.type()
        ins.ty, ins.args = t, [parse_value(p, t)]
    elif op in ("extractvalue", "insertvalue", "extractelement", "insertelement", "shufflevector", "va_arg", "indirectbr", "invoke"):
        ins.ty, ins.args, ins.extra = None, [], core
    else:
        raise AnalysisBroken("unsupported IR instruction: " + line)
    return ins


class Module:
    def __init__(self, text, name=""):
        self.name = name
        self.types = Types()
        self.globals = {}        # name -> (type, init operand or None, is_const)
        self.funcs = {}
        self.decls = set()
        self.md = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                if rest.strip() != "opaque":
                    t = P(tokenize(rest)).type()
                    self.types.structs[nm[1:]] = t[1]
            elif ln.startswith("@"):
                self.parse_global(ln)
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.parse_func(lines[i], lines[i + 1:j])
                i = j
            elif ln.startswith("declare"):
                m = re.search(r"@([\w.$]+)\(", ln)
                self.decls.add(m.group(1))
            elif ln.startswith("!"):
                m = re.match(r"!(\d+) = (?:distinct )?(.*)", ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1

    def parse_global(self, ln):
        nm, rest = ln.split(" = ", 1)
        nm = nm[1:].strip('"')
        rest = re.sub(r",\s*!dbg !\d+", "", rest)
        rest = re.sub(r", align \d+.*$", "", rest)
        rest = re.sub(r", section \"[^\"]*\".*$", "", rest)
        m = re.search(r"\b(global|constant)\b (.*)$", rest)
        if not m:
            return
        p = P(tokenize(m.group(2)))
        t = p.type()
        init = None
        if p.peek() is not None and "external" not in rest.split(m.group(1))[0]:
            init = parse_value(p, t)
        internal = "internal" in rest.split(m.group(1))[0] or "private" in rest.split(m.group(1))[0]
        self.globals[nm] = (t, init, m.group(1) == "constant", internal)

    def parse_func(self, head, body):
        f = Func()
        m = re.search(r"@([\w.$]+)\((.*)\)", head)
        f.name = m.group(1)
        f.external_inline = "available_externally" in head
        f.internal = " internal " in head
        f.dbg = None
        md = re.search(r"!dbg !(\d+)", head)
        if md:
            f.dbg = int(md.group(1))
        # return type
        pre = head[:m.start()]
        toks = [t for t in tokenize(re.sub(r"\w+\(\w+\)", "", pre))]
        p = P(toks)
        p.next()  # define
        while p.peek() in ("dso_local", "internal", "available_externally", "linkonce_odr", "local_unnamed_addr", "hidden", "noalias", "private") or p.peek() in ATTRS:
            p.next()
        skip_attrs(p)
        f.ret = p.type()
        # params: cut at the matching paren
        s = head[m.start(2) - 1:]
        depth = 0
        for k, ch in enumerate(s):
            depth += (ch == "(") - (ch == ")")
            if depth == 0:
                break
        p = P(tokenize(s[1:k]))
        f.vararg = False
        while p.peek() is not None:
            if p.accept("..."):
                f.vararg = True
                break
            t = p.type()
            skip_attrs(p)
            f.params.append((t, p.next()[1:]))
            p.accept(",")
        cur = None
        pend = ""
        nparam_blk = None
        for ln in body:
            if not ln.strip() or ln.strip().startswith(";"):
                continue
            ml = re.match(r'^([-\w.$]+|"[^"]*"):', ln)
            if ml and not ln.startswith(" "):
                cur = Block()
                cur.name = ml.group(1).strip('"')
                cur.ins, cur.phis, cur.fn = [], [], f
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block()
                cur.name = "entry"
                cur.ins, cur.phis, cur.fn = [], [], f
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if pend:
                ln = pend + " " + ln.strip()
                pend = ""
            if ln.strip().startswith("switch ") and "]" not in ln.split("[", 1)[-1]:
                pend = ln
                continue
            if "@llvm.dbg." in ln or "@llvm.lifetime." in ln or "@llvm.assume" in ln or "@llvm.experimental.noalias" in ln:
                if "@llvm.lifetime" not in ln:
                    continue
            ins = parse_instr(ln, f)
            ins.bb = cur
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                ins.idx = len(cur.ins)
                cur.ins.append(ins)
        f.entry = f.order[0]
        # CFG
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = list(dict.fromkeys(t.extra))
            elif t.op == "switch":
                b.succ = list(dict.fromkeys([t.extra[0]] + [c[1] for c in t.extra[1]]))
            else:
                b.succ = []
            b.pred = []
        for b in f.blocks.values():
            for s in b.succ:
                f.blocks[s].pred.append(b.name)
        compute_loops(f)
        self.funcs[f.name] = f

    # ---------------------------------------------------------------- debug info
    def loc(self, dbg):
        """(file, line, function) of a !DILocation id."""
        if dbg is None:
            return ("?", 0, "?")
        t = self.md.get(dbg, "")
        m = re.search(r"line: (\d+)", t)
        line = int(m.group(1)) if m else 0
        m = re.search(r"scope: !(\d+)", t)
        file, fn = self.scope(int(m.group(1))) if m else ("?", "?")
        return (file, line, fn)

    def scope(self, sid):
        seen = 0
        fn = "?"
        file = "?"
        while seen < 50:
            t = self.md.get(sid, "")
            if file == "?":
                m = re.search(r"file: !(\d+)", t)
                if m:
                    ft = self.md.get(int(m.group(1)), "")
                    mm = re.search(r'filename: "([^"]*)"', ft)
                    if mm:
                        file = mm.group(1)
            if "DISubprogram" in t:
                m = re.search(r'name: "([^"]*)"', t)
                if m:
                    fn = m.group(1)
                break
            m = re.search(r"scope: !(\d+)", t)
            if not m:
                break
            sid = int(m.group(1))
            seen += 1
        for pre in (REPO + "/",):
            if file.startswith(pre):
                file = file[len(pre):]
        return file, fn

    def where(self, ins):
        f, l, fn = self.loc(ins.dbg)
        return "%s:%d (%s)" % (f, l, fn)


def compute_loops(f):
    """Marks loop headers (targets of back edges w.r.t. dominators) and natural loop bodies."""
    order, seen = [], set()

    def dfs(start):
        stack = [(start, iter(f.blocks[start].succ))]
        seen.add(start)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                order.append(b)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    f.rpo = rpo
    num = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in f.blocks[b].pred if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                a = p
                while a != n:
                    while num[a] > num[n]:
                        a = idom[a]
                    while num[n] > num[a]:
                        n = idom[n]
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    f.idom = idom

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry or b not in idom:
                return False
            b = idom[b]
    f.dominates = dominates
    f.loops = {}
    for b in f.blocks.values():
        b.loop_head = False
        b.backedges = []
    for b in rpo:
        for s in f.blocks[b].succ:
            if dominates(s, b):
                h = f.blocks[s]
                h.loop_head = True
                h.backedges.append(b)
                body = f.loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in f.blocks[x].pred if p in num)
            elif num.get(s, 0) <= num.get(b, 0) and s in num:
                raise AnalysisBroken("irreducible control flow in " + f.name)


_cache = {}


def load(name, **kw):
    key = (name, tuple(sorted((k, str(v)) for k, v in kw.items())))
    if key not in _cache:
        _cache[key] = Module(build_ir(name, **kw), name)
    return _cache[key]


if __name__ == "__main__":
    for n in (sys.argv[1:] or PROGRAMS):
        m = load(n)
        print(n, len(m.funcs), "functions", sum(len(b.ins) + len(b.phis) for f in m.funcs.values() for b in f.blocks.values()), "instructions", sorted(m.decls))
