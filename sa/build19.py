"""P19: what the tree's own build commands and pragmas allow the compiler to do with floating-point arithmetic."""
import re, os, shlex, shutil
import frontend
from small import Result

RELAX = re.compile(r"(?<![\w-])(-Ofast|-f?(?!no-)(?:fast-math|unsafe-math-optimizations|associative-math|reciprocal-math|finite-math-only|single-precision-constant|"
                   r"cx-limited-range|cx-fortran-rules|allow-store-data-races)|-?f?no-signed-zeros|-f?no-trapping-math(?=fast)|-mrecip(?:=\S+)?|-mfpmath=\S*387\S*|-m32|-mdaz-ftz|"
                   r"-ffp-model=(?:fast|aggressive)|-fp-model[ =]fast\S*|-ffp-contract=(?:fast|on|fast-honor-pragmas)|-ftree-parallelize-loops=\S+|-fopenmp\S*)(?![\w-])")
ATTR = re.compile(r"fast-math|unsafe-math|associative-math|reciprocal-math|finite-math|no-signed-zeros|Ofast|fp-contract|single-precision-constant|fpmath|recip")
FMA = re.compile(r"^\s*v?fn?m(?:add|sub)(?:sub|add)?(?:132|213|231)?[ps][sd]\b")
X87 = re.compile(r"^\s*(?:fadd|fsub|fmul|fdiv|fsqrt|fild|fist|fld[sltdw12]?|fst[splt]?|fiadd|fimul|fsubr|fdivr|faddp|fmulp|fsubp|fdivp)[a-z]*\b(?![.:])")
APPROX = re.compile(r"^\s*v?r(?:cp|sqrt)(?:14|28)?[ps][sd]\b")
DIV = ("binned", "binnedBLAS", "reproBLAS", "common")


def commands(t):
    """{source base path relative to src/: argument list} for every library object, from make's own dry run"""
    e = t.env()
    rc, o = frontend.run(["make", "-n", "-B", "-k", "VERBOSE=true"], cwd=t.top, env=e, timeout=300)
    out = {}
    for l in o.split("\n"):
        if " -c " not in l or " -o " not in l:
            continue
        for cmd in re.split(r"\s*(?:&&|;)\s*", l):
            try:
                w = shlex.split(cmd)
            except ValueError:
                continue
            while w and ("=" in w[0] and not w[0].startswith("-") or w[0] in ("@", "env")):
                w = w[1:]
            if "-c" not in w or not w[-1].endswith(".c"):
                continue
            m = re.search(r"/src/(\w+)/(?:obj/)?(\w+)\.c$", w[-1])
            if m:
                out[m.group(1) + "/" + m.group(2)] = w
    return out


class FlagTask:
    cost = 0

    def __init__(s, fn, w, iscc):
        s.fn, s.w, s.iscc, s.part, s.tags = fn, w, iscc, "compile command", frozenset(("P19",))

    def run(s):
        args = " ".join(s.w[1:])
        bad = [m.group(1) for m in RELAX.finditer(args)]
        # a later flag of the other polarity wins
        bad = [b for b in bad if not re.search(r"-fno-%s(?![\w-])" % re.escape(b.lstrip("-f")), args.split(b)[-1])]
        out = [Result(s.tags, s.fn, s.part, "no option relaxes floating-point arithmetic", not bad, "compiled with " + " ".join(bad) if bad else "")]
        std = [x for x in s.w if x.startswith("-std=")]
        con = [x for x in s.w if x.startswith("-ffp-contract=")]
        if con:
            ok = con[-1] == "-ffp-contract=off"
        else:
            ok = s.iscc == "gcc" and (bool(std) and re.match(r"-std=(c|iso)", std[-1]) is not None or "-ansi" in s.w)
        out.append(Result(s.tags, s.fn, s.part, "contraction of products and sums is off", ok,
                          "" if ok else "%s without -ffp-contract=off%s" % (s.iscc, " under " + std[-1] if std else "")))
        return out


class UnitTask:
    cost = 3

    def __init__(s, tree, rel, w):
        s.tree, s.rel, s.w = tree, rel, w
        s.fn, s.part, s.tags = rel, "translation unit", frozenset(("P19",))

    def base(s):
        t = s.tree
        a = []
        it = iter(s.w[:-1])
        for x in it:
            if x in ("-c", "-MMD", "-MD", "-MP"):
                continue
            if x == "-o":
                next(it)
                continue
            a.append("-march=x86-64-v3" if x.startswith("-march=") else x)
        return a + ["-w", os.path.join(t.top, s.rel)]

    def run(s):
        t = s.tree
        b = s.base()
        out = []
        rc, o = frontend.run(b[:1] + ["-E", "-P"] + b[1:])
        if rc:
            return [Result(s.tags, s.fn, s.part, "analysable", False, o[-300:])]
        bad = []
        for l in o.split("\n"):
            m = re.match(r"\s*#\s*pragma\s+(.*)", l)
            if m:
                p = m.group(1)
                if re.match(r"(GCC|clang)\s+optimize\b", p) and ATTR.search(p) or re.match(r"STDC\s+FP_CONTRACT\s+(ON|DEFAULT)", p) or \
                        re.match(r"STDC\s+(CX_LIMITED_RANGE\s+ON|FENV_ROUND)", p) or re.match(r"clang\s+fp\b", p) and re.search(r"\((on|fast)\)", p) or \
                        re.match(r"float_control|fp_contract\s*\(\s*on", p):
                    bad.append("#pragma " + p.strip())
            for m in re.finditer(r"\boptimize(?:__)?\s*\(\s*\(?\s*((?:\"[^\"]*\"\s*,?\s*)+)", l):
                if ATTR.search(m.group(1)):
                    bad.append("optimize(%s)" % m.group(1).strip())
        out.append(Result(s.tags, s.fn, s.part, "no pragma or attribute relaxes floating-point arithmetic", not bad, "; ".join(sorted(set(bad)))))
        asm = os.path.join(t.ir, s.rel.replace("/", "__") + ".s")
        rc, o = frontend.run(b[:1] + ["-S", "-o", asm] + b[1:])
        if rc:
            return out + [Result(s.tags, s.fn, s.part, "analysable", False, o[-300:])]
        f = {FMA: [], X87: [], APPROX: []}
        cur = "?"
        n = 0
        for l in open(asm):
            m = re.match(r"([A-Za-z_][\w.$]*):", l)
            if m:
                cur = m.group(1)
            elif l[0] == "\t" and l[1:2] != ".":
                n += 1
                for k in f:
                    if k.match(l):
                        f[k].append("%s in %s" % (l.split()[0], cur))
        os.unlink(asm)
        for k, what in ((FMA, "no product and sum are fused"), (X87, "no arithmetic with excess precision"), (APPROX, "no approximate reciprocals")):
            x = sorted(set(f[k]))
            out.append(Result(s.tags, s.fn, s.part, what, not x, ", ".join(x[:3]) if x else "%d instructions" % n))
        return out


def suite(ctx, pid):
    import registry
    t = ctx.tree
    t.generate(DIV)
    cmds = commands(t)
    rels = t.csources("binned", "binnedBLAS", "reproBLAS")
    out, miss = [], []
    if not cmds:
        raise registry.Anchor("make -n shows no compile command for the library")
    cc = next(iter(cmds.values()))[0]
    rc, v = frontend.run([cc, "--version"])
    iscc = "clang" if "clang" in v else "gcc" if rc == 0 and ("GCC" in v or "Free Software Foundation" in v) else "unknown"
    for rel in rels:
        k = rel[len("src/"):-2]
        if k not in cmds:
            miss.append(rel)
            continue
        out.append(FlagTask(rel, cmds[k], iscc))
        out.append(UnitTask(t, rel, cmds[k]))
    if len(miss) > len(rels) // 10:
        raise registry.Anchor("no compile command found for " + ", ".join(miss[:5]))
    return out
