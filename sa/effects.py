"""Whole-library effect rules (P18): which functions may touch which state.  Works on the IR of every translation unit."""
import re, os
from small import Result

PURE = {"fabs", "sqrt", "ldexp", "frexp", "floor", "ceil", "log2", "log", "log10", "exp2", "pow", "fmax", "fmin", "fmod", "scalbn", "scalbln", "ilogb", "logb",
        "copysign", "trunc", "rint", "nearbyint", "round", "fma", "nextafter", "modf", "hypot", "fdim", "cabs", "creal", "cimag", "conj"}
PURE |= {x + "f" for x in PURE}
MEM = {"malloc", "calloc", "realloc", "free", "memset", "memcpy", "memmove", "aligned_alloc", "posix_memalign", "abs", "labs"}
OUT = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "perror", "abort", "exit", "__assert_fail"}
MPI = {"MPI_Op_create", "MPI_Type_contiguous", "MPI_Type_commit", "MPI_Abort", "MPI_Type_get_extent", "MPI_Type_size", "MPI_Type_create_resized",
       "MPI_Type_create_struct", "MPI_Type_vector"}
LLVM = {"fabs", "sqrt", "ldexp", "frexp", "floor", "ceil", "log2", "maxnum", "minnum", "maximum", "minimum", "copysign", "fmuladd", "fma", "is", "memset", "memcpy",
        "memmove", "lifetime", "smax", "smin", "umax", "umin", "abs", "ctlz", "cttz", "ctpop", "bswap", "fshl", "fshr", "assume", "expect", "dbg", "stacksave",
        "stackrestore", "objectsize", "va_start", "va_end", "va_copy", "trunc", "round", "rint", "nearbyint", "exp2", "pow", "sadd", "uadd", "smul", "umul", "ssub",
        "usub", "vector", "experimental", "masked", "is.fpclass", "convert", "invariant", "launder", "strip", "x86"}
EXTERN = re.compile(r"^(stderr|stdout|__stderrp|__stdoutp|ompi_.*)$")
HARDCSR = re.compile(r"^llvm\.x86\.sse\.(ld|st)mxcsr|^llvm\.(set|get)\.(rounding|fpenv|fpmode)|^llvm\.reset\.")
LOCALX86 = re.compile(r"^llvm\.x86\.(sse|sse2|sse3|ssse3|sse41|avx|avx2|fma)\.(?!ldmxcsr|stmxcsr|pause|clflush|lfence|mfence|sfence)")
NAME = re.compile(r'@("[^"]*"|[-\w.$]+)')


class Mod:
    def __init__(s, path):
        s.path = path
        s.globals, s.funcs, s.decl = {}, {}, set()
        cur = None
        for l in open(path):
            if cur is None:
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                if m:
                    s.globals[m.group(1)] = m.group(2)
                elif l.startswith("define "):
                    m = NAME.search(l)
                    cur = m.group(1)
                    s.funcs[cur] = (l, [])
                elif l.startswith("declare "):
                    s.decl.add(NAME.search(l).group(1))
                elif l.startswith("module asm"):
                    s.funcs["<module asm>"] = (l, [l])
            elif l.startswith("}"):
                cur = None
            else:
                s.funcs[cur][1].append(l.split(", !dbg")[0])

    def writable(s):
        """name -> defined here?"""
        out = {}
        for n, d in s.globals.items():
            head = d.split("{")[0].split("[")[0]
            if re.search(r"\bconstant\b", d.split(" global ")[0] if " global " in d else d) and not re.search(r"\bglobal\b", head):
                continue
            out[n] = not re.match(r"(external|extern_weak)\b", d)
        return out


def readonly_uses(lines, g):
    """True if this function only loads from global g"""
    names = set()
    pat = re.compile(r"@%s(?![-\w.$])" % re.escape(g))
    for l in lines:
        if pat.search(l):
            m = re.match(r"\s*(%[-\w.$]+) = (load|getelementptr)\b", l)
            if not m:
                return False
            if m.group(2) == "getelementptr":
                names.add(m.group(1))
    todo = list(names)
    while todo:
        x = todo.pop()
        pat = re.compile(r"%s(?![-\w.$])" % re.escape(x))
        for l in lines:
            if pat.search(l):
                m = re.match(r"\s*(%[-\w.$]+) = (load|getelementptr)\b", l)
                if not m:
                    return False
                if m.group(1) == x:
                    continue
                if m.group(2) == "getelementptr" and m.group(1) not in names:
                    names.add(m.group(1))
                    todo.append(m.group(1))
    return True


class EffectTask:
    def __init__(s, path, variant, library, covered, csr):
        """library: names defined by the library; covered: functions whose use of their own statics is decided by P08 / P20; csr: functions whose control word handling is decided"""
        s.path, s.variant, s.library, s.covered, s.csr = path, variant, library, covered, csr
        s.fn = os.path.basename(path).split(".")[0].replace("__", "/")
        s.part, s.tags = variant, frozenset(("P18",))

    def run(s):
        m = Mod(s.path)
        out = []

        def r(fn, what, ok, detail=""):
            out.append(Result(s.tags, fn, "%s (%s)" % (s.fn, s.variant), what, ok, detail))
        wr = m.writable()
        anchors = [f for f in m.funcs if f in s.covered]
        for f, (head, lines) in m.funcs.items():
            if "available_externally" in head:
                continue
            badc, badg, csr = [], [], False
            for l in lines:
                if re.search(r"\basm\b", l) and re.search(r"\b(call|module)\b", l):
                    if not re.search(r'asm (sideeffect )?"", "', l):
                        badc.append("inline assembly")
                mm = re.search(r"\b(?:call|invoke)\b[^@%]*(?:\(.*?\) )?([@%])(\"[^\"]*\"|[-\w.$]+)\(", l)
                if mm:
                    n = mm.group(2)
                    if mm.group(1) == "%":
                        badc.append("indirect call")
                    elif HARDCSR.match(n):
                        csr = True
                    elif n.startswith("llvm."):
                        if n.split(".")[1] == "x86":
                            if not LOCALX86.match(n):
                                badc.append(n)
                        elif n.split(".")[1] not in LLVM:
                            badc.append(n)
                    elif n not in m.funcs and n not in s.library and n not in PURE and n not in MEM and n not in OUT and n not in MPI:
                        badc.append(n)
                for g in NAME.findall(l):
                    if g in wr and g not in badg:
                        if not wr[g]:
                            if not EXTERN.match(g):
                                badg.append(g)
                        elif anchors and re.match(r"(internal|private)\b", m.globals[g]):
                            pass
                        elif not readonly_uses(lines, g) or not all(readonly_uses(x[1], g) for x in m.funcs.values()) \
                                or not re.match(r"(internal|private)\b", m.globals[g]):
                            badg.append(g)
            r(f, "calls nothing that keeps or reads state of its own", not badc, "calls " + ", ".join(sorted(set(badc))) if badc else "")
            r(f, "uses no variable that outlives the call, except the bin tables and MPI handles", not badg, "uses the writable variable " + ", ".join(badg) if badg else "")
            if csr:
                import ir
                mod = ir.Module(s.path)
                msg = control_word(mod.funcs[f])
                # a static helper of a kernel: decided in the kernel's own analysis
                ok = msg is None or "internal" in head and any(x in s.csr for x in m.funcs)
                r(f, "the floating-point control word is on every return what it was on entry", ok, "" if ok else msg)
        return out


def suite(ctx, pid):
    import kern as K
    t = ctx.tree
    t.generate(("binned", "binnedBLAS", "reproBLAS", "binnedMPI"))
    out = []
    csr = {c.fn for c in K.kernels()}
    jobs = [("AVX", t.csources("binned", "binnedBLAS", "reproBLAS"), ()), ("SSE", t.csources("binnedBLAS"), ()), ("SISD", t.csources("binnedBLAS"), ())]
    paths, lib = [], set()
    for v, rels, extra in jobs:
        for rel, ll in sorted(t.compile(rels, v, extra).items()):
            paths.append((ll, v))
    for rel, ll in sorted(t.compile(t.csources("binnedMPI"), "AVX", t.mpiflags()).items()):
        paths.append((ll, "MPI"))
    for ll, v in paths:
        for x in re.finditer(r"^define (?!.*\b(?:internal|private)\b).*?@([-\w.$]+)\(", open(ll).read(), re.M):
            lib.add(x.group(1))
    covered = {"binned_dmbins", "binned_smbins"} | {f for f in lib if re.match(r"binnedMPI_[A-Z_]+$", f)}
    return [EffectTask(ll, v, lib, covered, csr) for ll, v in paths]


# ---------------------------------------------------------------- control word typestate
def control_word(f, limit=200000):
    """every reachable return leaves the control word as it was on entry? -> None or a message"""
    start = ("E", frozenset(), frozenset(), frozenset())      # control word, memory cells, names, facts
    seen = set()
    todo = [(f.order[0].name, None, start)]
    n = 0

    def key(o, names):
        if o.k == "c":
            return ("c", o.v)
        return dict(names).get(o.v, o.v)
    while todo:
        b, pred, st = todo.pop()
        if (b, pred, st) in seen:
            continue
        seen.add((b, pred, st))
        n += 1
        if n > limit:
            return "too many states"
        cw, mem, names, facts = st
        mem, nm, fc = dict(mem), dict(names), dict(facts)
        blk = f.blocks[b]

        def kill(r):
            nm.pop(r, None)
            for k in [k for k in fc if r in k]:
                fc.pop(k)
        vals = {}
        for i in blk.phis:
            for o, src in zip(i.ops, i.x):
                if src == pred:
                    vals[i.res] = key(o, nm)
        for i in blk.phis:
            kill(i.res)
            if vals.get(i.res) is not None and cw is not None:
                v = vals[i.res]
                if v == "E" or v == cw or v in mem.values():
                    nm[i.res] = v
        for i in blk.insts:
            if i is blk.term:
                continue
            if i.res is not None:
                if i.res == cw or i.res in mem.values():
                    if i.res == cw:
                        cw = "old " + i.res
                    for k in [k for k in mem if mem[k] == i.res]:
                        mem[k] = "old " + i.res
                kill(i.res)
            if i.op == "call" and i.x.startswith("@llvm.x86.sse.stmxcsr"):
                mem[i.ops[0].v] = cw
            elif i.op == "call" and i.x.startswith("@llvm.x86.sse.ldmxcsr"):
                cw = mem.get(i.ops[0].v, "unknown")
                if fc.get(("ne",) + tuple(sorted((str(cw), "E")))) is False:
                    cw = "E"
            elif i.op == "call" and HARDCSR.match(i.x[1:]):
                return "uses %s" % i.x[1:]
            elif i.op == "load" and i.ops[0].v in mem:
                nm[i.res] = mem[i.ops[0].v]
            elif i.op == "store" and i.ops[1].k == "v":
                if i.ops[1].v in mem or i.ty.k == "i" and i.ty.n == 32:
                    mem[i.ops[1].v] = key(i.ops[0], nm)
        t = blk.term
        if t.op == "ret":
            if cw != "E":
                return "returns%s with a changed floating-point control word" % (" at line %s" % t.line if t.line else "")
            continue
        if t.op == "unreachable":
            continue
        nxt = []
        if t.op == "br" and t.ops:
            c = t.ops[0]
            d = None
            if c.k == "c":
                d = bool(c.v)
            else:
                for i in blk.insts:
                    if i.res == c.v and i.op == "icmp":
                        pr = i.x[0] if isinstance(i.x, (list, tuple)) else i.x
                        a, z = i.ops
                        if a.k == "c" and z.k == "c" and pr in ("eq", "ne"):
                            d = (a.v == z.v) == (pr == "eq")
                        elif pr in ("eq", "ne"):
                            k = ("ne",) + tuple(sorted((str(key(a, nm)), str(key(z, nm)))))
                            if k in fc:
                                d = fc[k] == (pr == "ne")
                            elif "E" in k:
                                nxt = [(t.x[0], dict(fc, **{})), (t.x[1], dict(fc))]
                                nxt[0][1][k] = pr == "ne"
                                nxt[1][1][k] = pr != "ne"
            if not nxt:
                nxt = [(x, fc) for j, x in enumerate(t.x) if d is None or j == (0 if d else 1)]
        else:
            nxt = [(x, fc) for x in blk.succ]
        used = set(mem.values()) | {cw}
        for x, g in nxt:
            c2 = cw
            for k, v in g.items():
                if v is False and "E" in k and str(cw) in k:
                    c2 = "E"
            todo.append((x, b, (c2, frozenset((k, v) for k, v in mem.items() if isinstance(v, str)), frozenset((k, v) for k, v in nm.items() if v in used or v == "E"),
                                frozenset(g.items()))))
    return None
