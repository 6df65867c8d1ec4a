"""Reader for the LLVM 18 textual IR produced by frontend.py."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<name>[%@](?:"[^"]*"|[-A-Za-z$._0-9]+))
  | (?P<md>!(?:[A-Za-z0-9_.]+)?)
  | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
  | (?P<id>[A-Za-z_$.][A-Za-z0-9_$.]*)
  | (?P<attr>\#\d+)
  | (?P<p>\.\.\.|[(){}\[\]<>,=*:|])
)''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise IRError("cannot tokenize: %r" % s[i:i + 60])
        out.append(m.group().strip())
        i = m.end()
    return out


# ---- types: ('i',n) ('f',) float ('d',) double ('ptr',) ('void',) ('vec',n,t) ('arr',n,t) ('struct',[t]) ('label',)
class Ty:
    __slots__ = ("k", "n", "t", "packed")

    def __init__(s, k, n=0, t=None, packed=False):
        s.k, s.n, s.t, s.packed = k, n, t, packed

    def __repr__(s):
        if s.k == "i":
            return "i%d" % s.n
        if s.k in ("vec", "arr"):
            return "%s[%d x %r]" % (s.k, s.n, s.t)
        if s.k == "struct":
            return "struct%r" % (s.t,)
        return s.k

    def size(s):
        k = s.k
        if k == "i":
            return max(1, (s.n + 7) // 8)
        if k == "f":
            return 4
        if k == "d":
            return 8
        if k == "fp80":
            return 16
        if k == "ptr":
            return 8
        if k in ("vec", "arr"):
            return s.n * s.t.size()
        if k == "struct":
            off = 0
            for t in s.t:
                if not s.packed:
                    a = t.align()
                    off = (off + a - 1) // a * a
                off += t.size()
            if not s.packed:
                a = s.align()
                off = (off + a - 1) // a * a
            return off
        raise IRError("size of %r" % s)

    def align(s):
        if s.k == "arr":
            return s.t.align()
        if s.k == "struct":
            return 1 if s.packed else max([t.align() for t in s.t] or [1])
        return min(16, s.size())

    def field(s, i):
        off = 0
        for j, t in enumerate(s.t):
            if not s.packed:
                a = t.align()
                off = (off + a - 1) // a * a
            if j == i:
                return off, t
            off += t.size()
        raise IRError("field")


I1, I8, I32, I64 = Ty("i", 1), Ty("i", 8), Ty("i", 32), Ty("i", 64)
FLT, DBL, PTR, VOID = Ty("f"), Ty("d"), Ty("ptr"), Ty("void")

PARAM_ATTRS = {"noundef", "nocapture", "nonnull", "readonly", "readnone", "writeonly", "signext", "zeroext", "noalias",
               "returned", "immarg", "inreg", "dead_on_unwind", "writable", "nofree"}


class Operand:
    """kind: 'v' SSA name, 'g' global, 'c' constant (value python int/Fraction/tuple/'undef'/'zero'/'null'/'inf'..), 'ce' constexpr"""
    __slots__ = ("k", "v", "ty")

    def __init__(s, k, v, ty):
        s.k, s.v, s.ty = k, v, ty

    def __repr__(s):
        return "%s:%s" % (s.k, s.v)


class Inst:
    __slots__ = ("op", "res", "ty", "ops", "x", "line", "idx", "flags")

    def __init__(s, op, res=None, ty=None, ops=(), x=None):
        s.op, s.res, s.ty, s.ops, s.x, s.line, s.idx, s.flags = op, res, ty, ops, x, 0, 0, ()

    def __repr__(s):
        return "%s = %s %r %r" % (s.res, s.op, s.ops, s.x)


class Block:
    __slots__ = ("name", "insts", "phis", "term", "succ", "pred", "rpo", "livein", "loops")

    def __init__(s, name):
        s.name, s.insts, s.phis, s.term = name, [], [], None
        s.succ, s.pred, s.rpo, s.livein, s.loops = [], [], -1, None, ()


class Func:
    def __init__(s, name):
        s.name, s.args, s.blocks, s.order, s.rty = name, [], {}, [], None
        s.file, s.mod, s.attrs, s.linkage, s.line = None, None, "", "", 0
        s.fninfo = False


class Global:
    def __init__(s, name, ty, const, init, linkage):
        s.name, s.ty, s.const, s.init, s.linkage = name, ty, const, init, linkage
        s.tls = False


def f64(h):
    return struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]


def fconst(x):
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    import math
    if x == 0.0 and math.copysign(1.0, x) < 0:
        return "-0"
    return Fraction(x)


class P:
    """token cursor"""

    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def acc(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def exp(s, x):
        y = s.next()
        if y != x:
            raise IRError("expected %r got %r in %s" % (x, y, " ".join(s.t)))

    def type(s):
        x = s.next()
        if x == "void":
            t = VOID
        elif x == "float":
            t = FLT
        elif x == "double":
            t = DBL
        elif x == "x86_fp80":
            t = Ty("fp80")
        elif x == "ptr":
            t = PTR
        elif x == "label":
            t = Ty("label")
        elif x == "metadata":
            t = Ty("metadata")
        elif x == "half":
            t = Ty("half")
        elif x[0] == "i" and x[1:].isdigit():
            n = int(x[1:])
            t = {1: I1, 8: I8, 32: I32, 64: I64}.get(n) or Ty("i", n)
        elif x == "<":
            if s.peek() == "{":
                s.next()
                fs = s.fields()
                s.exp(">")
                t = Ty("struct", t=fs, packed=True)
            else:
                n = int(s.next())
                s.exp("x")
                e = s.type()
                s.exp(">")
                t = Ty("vec", n, e)
        elif x == "[":
            n = int(s.next())
            s.exp("x")
            e = s.type()
            s.exp("]")
            t = Ty("arr", n, e)
        elif x == "{":
            t = Ty("struct", t=s.fields())
        elif x[0] == "%":
            if x not in s.mod.types:
                raise IRError("unknown type " + x)
            t = s.mod.types[x]
        else:
            raise IRError("type? %r in %s" % (x, " ".join(s.t[:40])))
        # function type  (void (ptr, ...)) as in varargs calls
        if s.peek() == "(" and s.mod.allow_fty:
            depth = 0
            j = s.i
            while True:
                if s.t[j] == "(":
                    depth += 1
                elif s.t[j] == ")":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            if j + 1 < len(s.t) and s.t[j + 1][0] in "@%":
                s.i = j + 1
        return t

    def fields(s):
        fs = []
        if s.acc("}"):
            return fs
        while True:
            fs.append(s.type())
            if s.acc("}"):
                return fs
            s.exp(",")

    def attrs(s):
        while True:
            x = s.peek()
            if x in PARAM_ATTRS:
                s.next()
            elif x == "align":
                s.next()
                if s.acc("("):
                    s.next(); s.exp(")")
                else:
                    s.next()
            elif x in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "range", "memory"):
                s.next()
                s.exp("(")
                d = 1
                while d:
                    y = s.next()
                    d += y == "("
                    d -= y == ")"
            else:
                return

    def value(s, ty):
        x = s.next()
        if x[0] == "%":
            return Operand("v", x, ty)
        if x[0] == "@":
            return Operand("g", x[1:], ty)
        if x in ("true", "false"):
            return Operand("c", int(x == "true"), ty)
        if x in ("undef", "poison"):
            return Operand("c", "undef", ty)
        if x == "null":
            return Operand("c", "null", ty)
        if x == "zeroinitializer":
            return Operand("c", "zero", ty)
        if x.startswith("0x"):
            if x[2] in "KMLHR":
                return Operand("c", "fp?", ty)
            return Operand("c", fconst(f64(x[2:])), ty)
        if x == "<" or x == "[" or x == "{":
            close = {"<": ">", "[": "]", "{": "}"}[x]
            es = []
            if not s.acc(close):
                while True:
                    et = s.type()
                    es.append(s.value(et))
                    if s.acc(close):
                        break
                    s.exp(",")
            return Operand("c", tuple(es), ty)
        if x[0] == 'c' and x[1:2] == '"':
            return Operand("c", x, ty)
        if x in ("getelementptr", "bitcast", "ptrtoint", "inttoptr", "sub", "add"):
            while s.peek() in ("inbounds", "nuw", "nsw"):
                s.next()
            s.exp("(")
            if x == "getelementptr":
                bt = s.type()
                s.exp(",")
                ops = []
                while True:
                    if s.peek() == "inrange":
                        s.next()
                    t = s.type()
                    ops.append(s.value(t))
                    if s.acc(")"):
                        break
                    s.exp(",")
                return Operand("ce", ("gep", bt, ops), ty)
            d = 1
            ops = []
            t = s.type()
            ops.append(s.value(t))
            while d:
                y = s.next()
                d += y == "("
                d -= y == ")"
            return Operand("ce", (x, None, ops), ty)
        if ty.k in ("f", "d", "fp80") and x != "splat":
            return Operand("c", fconst(float(x)), ty)
        if x.lstrip("-").isdigit():
            return Operand("c", int(x), ty)
        raise IRError("value? %r of %r in %s" % (x, ty, " ".join(s.t)))

    def tv(s):
        t = s.type()
        s.attrs()
        if t.k == "metadata":
            s.next()
            return Operand("c", 0, t)
        return s.value(t)


FAST = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}
WRAP = {"nsw", "nuw", "exact", "inbounds", "disjoint", "nneg", "samesign"}
BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"sext", "zext", "trunc", "bitcast", "fpext", "fptrunc", "fptosi", "sitofp", "uitofp", "fptoui", "ptrtoint",
        "inttoptr", "addrspacecast"}
DBG = re.compile(r", !dbg !(\d+)")
MD = re.compile(r", ![a-zA-Z_.]+ !\d+")


class Module:
    def __init__(s, path):
        s.path = path
        s.types, s.globals, s.funcs, s.decls = {}, {}, {}, {}
        s.lines = {}
        s.subprograms = {}
        s.files = {}
        s.allow_fty = True
        s.source = None
        s.parse(open(path).read().split("\n"))

    def parse(s, lines):
        for l in lines:
            if l[:1] == "!":
                m = re.match(r"!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DIFile|DILexicalBlockFile|DILexicalBlock)\((.*)\)", l)
                if m:
                    n, kind, body = int(m.group(1)), m.group(2), m.group(3)
                    mm = re.search(r"line: (\d+)", body)
                    ms = re.search(r"scope: !(\d+)", body)
                    mf = re.search(r"file: !(\d+)", body)
                    if kind == "DILocation":
                        s.lines[n] = (int(mm.group(1)) if mm else 0, int(ms.group(1)) if ms else None)
                    elif kind == "DIFile":
                        s.files[n] = re.search(r'filename: "([^"]*)"', body).group(1)
                    else:
                        s.subprograms[n] = (int(mm.group(1)) if mm else 0, int(mf.group(1)) if mf else None)
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("source_filename"):
                s.source = l.split('"')[1]
            elif l[:1] == "%" and " = type " in l:
                name, body = l.split(" = type ", 1)
                if body.strip() != "opaque":
                    s.types[name.strip()] = P(tokenize(body), s).type()
                else:
                    s.types[name.strip()] = Ty("struct", t=[])
            elif l[:1] == "@":
                s.global_(l)
            elif l.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", l)
                s.decls[m.group(1)] = l
            elif l.startswith("define"):
                body = [l]
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                s.func(body)
            i += 1

    def global_(s, l):
        m = re.match(r'@([-\w.$"]+) = (.*)$', l)
        name, rest = m.group(1), MD.sub("", m.group(2))
        rest = re.sub(r", align \d+.*$", "", rest)
        p = P(tokenize(rest), s)
        link, const = [], False
        g = Global(name, None, False, None, link)
        while True:
            x = p.peek()
            if x in ("global", "constant"):
                p.next()
                const = x == "constant"
                break
            if x == "thread_local":
                g.tls = True
            link.append(p.next())
        s.allow_fty = False
        g.ty = p.type()
        s.allow_fty = True
        g.const = const
        if p.peek() not in (None, ","):
            g.init = p.value(g.ty)
        s.globals[name] = g

    def func(s, body):
        head = body[0]
        m = re.match(r"define (.*?)@([-\w.$]+)\((.*)\)(.*)\{$", head)
        f = Func(m.group(2))
        f.linkage = m.group(1)
        f.attrs = m.group(4)
        f.mod = s
        md = re.search(r"!dbg !(\d+)", head)
        if md and int(md.group(1)) in s.subprograms:
            f.line, fid = s.subprograms[int(md.group(1))]
            f.file = s.files.get(fid)
        # return type = last type tokens of linkage part
        rt = tokenize(m.group(1))
        p = P(rt, s)
        while p.peek() is not None:
            try:
                save = p.i
                f.rty = p.type()
            except IRError:
                p.i = save + 1
        toks = tokenize(m.group(3))
        p = P(toks, s)
        while p.peek() is not None:
            if p.acc("..."):
                break
            t = p.type()
            p.attrs()
            nm = p.next()
            f.args.append((nm, t))
            p.acc(",")
        cur = None
        k = 1
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if l[0] != " ":
                nm = l.split(";")[0].strip()
                nm = nm[:-1] if nm.endswith(":") else nm
                if nm.startswith('"'):
                    pass
                cur = Block("%" + nm)
                f.blocks[cur.name] = cur
                f.order.append(cur)
                continue
            if cur is None:
                cur = Block("%entry0")
                f.blocks[cur.name] = cur
                f.order.append(cur)
            if l.strip().startswith("switch"):
                while not l.rstrip().split(", !")[0].rstrip().endswith("]"):
                    l += " " + body[k].strip()
                    k += 1
            inst = s.inst(l)
            inst.idx = k
            if inst.op == "phi":
                cur.phis.append(inst)
            elif inst.op in ("br", "switch", "ret", "unreachable"):
                cur.term = inst
            else:
                cur.insts.append(inst)
        s.finish(f)
        s.funcs[f.name] = f

    def inst(s, l):
        md = DBG.search(l)
        line = 0
        fileid = None
        if md:
            line, sc = s.lines.get(int(md.group(1)), (0, None))
        body = MD.sub("", l)
        body = re.sub(r", align \d+", "", body)
        p = P(tokenize(body), s)
        res = None
        if p.peek(1) == "=":
            res = p.next()
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        it = s._inst(op, res, p, l)
        it.line = line
        return it

    def _inst(s, op, res, p, l):
        if op in BIN:
            fl = []
            while p.peek() in WRAP or p.peek() in FAST:
                fl.append(p.next())
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            it = Inst(op, res, t, (a, b))
            it.flags = tuple(fl)
            return it
        if op == "fneg":
            fl = []
            while p.peek() in FAST:
                fl.append(p.next())
            a = p.tv()
            it = Inst(op, res, a.ty, (a,))
            it.flags = tuple(fl)
            return it
        if op in CAST:
            while p.peek() in WRAP or p.peek() in FAST:
                p.next()
            a = p.tv()
            p.exp("to")
            t = p.type()
            return Inst(op, res, t, (a,))
        if op in ("icmp", "fcmp"):
            fl = []
            while p.peek() in FAST or p.peek() in WRAP:
                fl.append(p.next())
            cc = p.next()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            b = p.value(t)
            it = Inst(op, res, Ty("vec", t.n, I1) if t.k == "vec" else I1, (a, b), cc)
            it.flags = tuple(fl)
            return it
        if op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            p.exp(",")
            a = p.tv()
            return Inst(op, res, t, (a,))
        if op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            v = p.tv()
            p.exp(",")
            a = p.tv()
            return Inst(op, None, v.ty, (v, a))
        if op == "getelementptr":
            while p.peek() in WRAP:
                p.next()
            bt = p.type()
            ops = []
            while p.acc(","):
                ops.append(p.tv())
            return Inst(op, res, PTR, tuple(ops), bt)
        if op == "alloca":
            t = p.type()
            n = None
            if p.acc(","):
                n = p.tv()
            return Inst(op, res, PTR, (n,) if n else (), t)
        if op == "phi":
            while p.peek() in FAST:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.exp("[")
                v = p.value(t)
                p.exp(",")
                b = p.next()
                p.exp("]")
                inc.append((v, b))
                if not p.acc(","):
                    break
            return Inst(op, res, t, tuple(v for v, _ in inc), [b for _, b in inc])
        if op == "select":
            while p.peek() in FAST:
                p.next()
            c = p.tv(); p.exp(",")
            a = p.tv(); p.exp(",")
            b = p.tv()
            return Inst(op, res, a.ty, (c, a, b))
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Inst(op, None, None, (), [p.next()])
            c = p.tv()
            p.exp(","); p.exp("label")
            a = p.next()
            p.exp(","); p.exp("label")
            b = p.next()
            return Inst(op, None, None, (c,), [a, b])
        if op == "switch":
            c = p.tv()
            p.exp(","); p.exp("label")
            d = p.next()
            p.exp("[")
            cases = []
            while not p.acc("]"):
                v = p.tv()
                p.exp(","); p.exp("label")
                cases.append((v.v, p.next()))
            return Inst(op, None, None, (c,), [d, cases])
        if op == "ret":
            if p.peek() == "void":
                return Inst(op, None, None, (), [])
            return Inst(op, None, None, (p.tv(),), [])
        if op == "unreachable":
            return Inst(op, None, None, (), [])
        if op == "call":
            fl = []
            while p.peek() in FAST or p.peek() in ("fastcc", "ccc"):
                fl.append(p.next())
            p.attrs()
            t = p.type()
            callee = p.next()
            if callee == "asm":
                return Inst("asm", res, t, (), l.strip())
            p.exp("(")
            ops = []
            if not p.acc(")"):
                while True:
                    if p.peek() == "metadata":
                        d = 0
                        while not (p.peek() in (",", ")") and d == 0):
                            y = p.next()
                            d += y == "("
                            d -= y == ")"
                    else:
                        ops.append(p.tv())
                    if p.acc(")"):
                        break
                    p.exp(",")
            it = Inst("call", res, t, tuple(ops), callee)
            it.flags = tuple(fl)
            return it
        if op == "extractelement":
            a = p.tv(); p.exp(",")
            b = p.tv()
            return Inst(op, res, a.ty.t, (a, b))
        if op == "insertelement":
            a = p.tv(); p.exp(",")
            b = p.tv(); p.exp(",")
            c = p.tv()
            return Inst(op, res, a.ty, (a, b, c))
        if op == "shufflevector":
            a = p.tv(); p.exp(",")
            b = p.tv(); p.exp(",")
            m = p.tv()
            return Inst(op, res, Ty("vec", m.ty.n, a.ty.t), (a, b, m))
        if op in ("extractvalue", "insertvalue", "freeze", "fence", "cmpxchg", "atomicrmw", "va_arg"):
            a = p.tv()
            return Inst(op, res, None, (a,), p.t[p.i:])
        raise IRError("unknown instruction " + l)

    def finish(s, f):
        for b in f.order:
            t = b.term
            if t.op == "br":
                b.succ = list(t.x)
            elif t.op == "switch":
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            for x in b.succ:
                f.blocks[x].pred.append(b.name)
        # RPO
        seen, post = set(), []
        st = [(f.order[0].name, iter(f.order[0].succ))]
        seen.add(f.order[0].name)
        while st:
            nm, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(f.blocks[x].succ)))
                    break
            else:
                post.append(nm)
                st.pop()
        f.rpo = post[::-1]
        for i, nm in enumerate(f.rpo):
            f.blocks[nm].rpo = i
        f.order = [b for b in f.order if b.rpo >= 0]
        f.blocks = {b.name: b for b in f.order}
        for b in f.order:
            b.pred = [x for x in b.pred if x in f.blocks]
        loops(f)
        liveness(f)


def loops(f):
    """natural loops: f.loops = {header: set(blocks)}; block.loops = headers containing it, outermost first"""
    # dominators (simple iterative)
    idom = {f.rpo[0]: f.rpo[0]}
    ch = True
    while ch:
        ch = False
        for nm in f.rpo[1:]:
            new = None
            for p in f.blocks[nm].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while f.blocks[a].rpo > f.blocks[b].rpo:
                                a = idom[a]
                            while f.blocks[b].rpo > f.blocks[a].rpo:
                                b = idom[b]
                        new = a
            if idom.get(nm) != new:
                idom[nm] = new
                ch = True
    f.idom = idom

    def dom(a, b):
        while f.blocks[b].rpo > f.blocks[a].rpo:
            b = idom[b]
        return a == b
    f.dom = dom
    L = {}
    f.irreducible = False
    for b in f.order:
        for x in b.succ:
            if f.blocks[x].rpo <= b.rpo:
                if not dom(x, b.name):
                    f.irreducible = True
                    continue
                body = L.setdefault(x, {x})
                st = [b.name]
                while st:
                    y = st.pop()
                    if y in body:
                        continue
                    body.add(y)
                    st.extend(f.blocks[y].pred)
    f.loops = L
    hs = sorted(L, key=lambda h: f.blocks[h].rpo)
    for b in f.order:
        b.loops = tuple(h for h in hs if b.name in L[h])


def uses(it):
    for o in it.ops:
        if o is not None:
            yield from opuses(o)


def opuses(o):
    if o.k == "v":
        yield o.v
    elif o.k == "ce":
        for q in o.v[2]:
            yield from opuses(q)
    elif o.k == "c" and isinstance(o.v, tuple):
        for q in o.v:
            yield from opuses(q)


def liveness(f):
    gen, kill = {}, {}
    for b in f.order:
        g, k = set(), set()
        for it in b.phis:
            k.add(it.res)
        for it in b.insts + [b.term]:
            for u in uses(it):
                if u not in k:
                    g.add(u)
            if it.res:
                k.add(it.res)
        gen[b.name], kill[b.name] = g, k
    livein = {b.name: set() for b in f.order}
    phiuse = {b.name: {} for b in f.order}
    for b in f.order:
        for it in b.phis:
            for o, pb in zip(it.ops, it.x):
                for u in opuses(o):
                    phiuse[b.name].setdefault(pb, set()).add(u)
    ch = True
    while ch:
        ch = False
        for b in reversed([f.blocks[n] for n in f.rpo]):
            out = set()
            for x in b.succ:
                out |= livein[x] - {i.res for i in f.blocks[x].phis}
                out |= phiuse[x].get(b.name, set())
            # livein = values live on entry *after* phis evaluated are handled separately
            new = gen[b.name] | (out - kill[b.name])
            if new != livein[b.name]:
                livein[b.name] = new
                ch = True
    for b in f.order:
        b.livein = livein[b.name]           # excludes phi results
    # live after phis: livein plus phi results (all)


if __name__ == "__main__":
    import sys, glob, time
    t = time.time()
    n = 0
    for p in sys.argv[1:]:
        m = Module(p)
        n += sum(len(b.insts) for f in m.funcs.values() for b in f.order)
    print(n, "insts", time.time() - t)
