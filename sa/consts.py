"""P09: relations between the published constants, as the compiler's front end evaluates them, and the published error bound functions."""
import os, re, math
from fractions import Fraction as F
from small import Result

FMT = {"D": dict(p=53, emax=1024, emin=-1021, eps=F(1, 2 ** 52), w="DBWIDTH", mx="binned_DBMAXINDEX", mf="binned_DBMAXFOLD", en="binned_DBENDURANCE",
                 ca="binned_DBCAPACITY", co="binned_DMCOMPRESSION", ex="binned_DMEXPANSION", df="DIDEFAULTFOLD", bound="binned_dbbound"),
       "S": dict(p=24, emax=128, emin=-125, eps=F(1, 2 ** 23), w="SBWIDTH", mx="binned_SBMAXINDEX", mf="binned_SBMAXFOLD", en="binned_SBENDURANCE",
                 ca="binned_SBCAPACITY", co="binned_SMCOMPRESSION", ex="binned_SMEXPANSION", df="SIDEFAULTFOLD", bound="binned_sbbound")}
NAMES = ("w", "mx", "mf", "en", "ca", "co", "ex", "df")


def pow2(x):
    return x > 0 and (x.numerator & (x.numerator - 1)) == 0 and (x.denominator & (x.denominator - 1)) == 0


RULES = [
    ("the bin width leaves room for the window above and the odd bit below", lambda k: (k["p"] + 1) < 2 * k["w"] and k["w"] < k["p"] - 2,
     lambda k: "width %s with %d bit significands" % (k["w"], k["p"])),
    ("a window takes `endurance` deposits of the widest slice without leaving its binade", lambda k: k["en"] >= 2 and k["en"] * 2 ** int(k["w"]) <= 2 ** (k["p"] - 2),
     lambda k: "%s deposits of 2^%s units need more than a quarter of 2^%d" % (k["en"], k["w"], k["p"])),
    ("the number of deposits between renormalisations is a power of two", lambda k: pow2(k["en"]), lambda k: "%s" % k["en"]),
    ("carries of `capacity` summands stay exact", lambda k: k["en"] <= k["ca"] <= k["en"] * (1 / k["eps"] - 1), lambda k: "capacity %s with endurance %s" % (k["ca"], k["en"])),
    ("compression moves the largest bin by exactly its overhang", lambda k: k["co"] == F(1, 2 ** int(k["p"] - k["w"] + 1)), lambda k: "factor %s" % k["co"]),
    ("expansion undoes compression exactly", lambda k: k["co"] * k["ex"] == 1, lambda k: "%s * %s" % (k["co"], k["ex"])),
    ("the bins cover every exponent down to the subnormals", lambda k: k["mx"] == (k["emax"] - k["emin"] + k["p"] - 1) // k["w"] - 1, lambda k: "maximum index %s" % k["mx"]),
    ("an accumulator of the largest fold uses every bin", lambda k: k["mf"] == k["mx"] + 1, lambda k: "maximum fold %s with maximum index %s" % (k["mf"], k["mx"])),
    ("the default fold is a supported fold", lambda k: 2 <= k["df"] <= k["mf"], lambda k: "default fold %s" % k["df"]),
]


class ConstTask:
    part, cost = "header constants", 0

    def __init__(s, fn, k, got):
        s.fn, s.k, s.tags = fn, dict(k, **got), frozenset(("P09",))

    def run(s):
        out = []
        for what, ok, show in RULES:
            r = bool(ok(s.k))
            out.append(Result(s.tags, s.fn, s.part, what, r, "" if r else show(s.k)))
        return out


class Fork(Exception):
    def __init__(s, key):
        s.key = key


class Undecided(Exception):
    pass


class E:
    """polynomial with rational coefficients in named atoms: {sorted tuple of atoms: Fraction}"""
    def __init__(s, t):
        s.t = {k: v for k, v in t.items() if v}

    def __repr__(s):
        return " + ".join("%.6g%s" % (float(v), "".join("*" + a for a in k)) for k, v in sorted(s.t.items())) or "0"

    def const(s):
        if any(k for k in s.t):
            raise Undecided("not a constant: %r" % s)
        return s.t.get((), F(0))

    def __add__(s, o):
        t = dict(s.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return E(t)

    def __mul__(s, o):
        t = {}
        for a, x in s.t.items():
            for b, y in o.t.items():
                k = tuple(sorted(a + b))
                t[k] = t.get(k, 0) + x * y
        return E(t)


def C(x):
    return E({(): F(x)})


class Eval:
    """real-number reading of an acyclic floating-point function (roundings ignored: a bound is a magnitude)"""
    def __init__(s, prog, decisions):
        s.prog, s.dec, s.n = prog, dict(decisions), 0

    def decide(s, key):
        if key not in s.dec:
            raise Fork(key)
        return s.dec[key]

    def greater(s, a, b):
        d = a + b * C(-1)
        if not any(k for k in d.t):
            return d.t.get((), 0) > 0
        return s.decide(("gt", repr(a), repr(b)))

    def val(s, o, env):
        if o.k == "c":
            if o.v in ("zero", "null"):
                return C(0)
            if o.v == "-0":
                return C(0)
            if not isinstance(o.v, (int, F)):
                raise Undecided("constant %r" % (o.v,))
            return C(o.v)
        return env[o.v]

    def absval(s, a):
        if not any(k for k in a.t):
            return C(abs(a.const()))
        if len(a.t) == 1:
            (k, v), = a.t.items()
            if all(x.startswith("|") or x == "N" for x in k):
                return E({k: abs(v)})
            if len(k) == 1:
                return E({("|%s|" % k[0],): abs(v)})
        raise Undecided("absolute value of %r" % a)

    def call(s, name, args):
        f = s.prog.lookup(name, s.mod)
        if f is not None:
            return s.run(f, args)
        n = re.sub(r"^llvm\.(\w+)\..*", r"\1", name)
        n = n[:-1] if n.endswith("f") and n[:-1] in ("fabs", "sqrt", "ldexp", "fmax", "fmin", "scalbn", "exp2") else n
        if n == "fabs":
            return s.absval(args[0])
        if n in ("ldexp", "scalbn"):
            return args[0] * C(F(2) ** int(args[1].const()))
        if n == "exp2":
            return C(F(2) ** int(args[0].const()))
        if n == "pow" and args[0].const() == 2:
            return C(F(2) ** int(args[1].const()))
        if n == "sqrt":
            return C(F(math.sqrt(float(args[0].const()))))
        if n in ("fmax", "maxnum"):
            return args[0] if s.greater(args[0], args[1]) else args[1]
        if n in ("fmin", "minnum"):
            return args[1] if s.greater(args[0], args[1]) else args[0]
        raise Undecided("call of %s" % name)

    def run(s, f, args):
        env = {n: a for (n, t), a in zip(f.args, args)}
        old, s.mod = getattr(s, "mod", None), f.mod
        b, pred = f.order[0], None
        while True:
            s.n += 1
            if s.n > 500:
                raise Undecided("too long")
            new = {}
            for i in b.phis:
                for o, src in zip(i.ops, i.x):
                    if src == pred:
                        new[i.res] = s.val(o, env)
            env.update(new)
            for i in b.insts:
                if i is b.term or i.op == "phi":
                    continue
                op = i.op
                if op in ("fadd", "add"):
                    v = s.val(i.ops[0], env) + s.val(i.ops[1], env)
                elif op in ("fsub", "sub"):
                    v = s.val(i.ops[0], env) + s.val(i.ops[1], env) * C(-1)
                elif op in ("fmul", "mul"):
                    v = s.val(i.ops[0], env) * s.val(i.ops[1], env)
                elif op == "shl":
                    v = s.val(i.ops[0], env) * C(2 ** int(s.val(i.ops[1], env).const()))
                elif op == "fdiv":
                    v = s.val(i.ops[0], env) * C(1 / s.val(i.ops[1], env).const())
                elif op == "fneg":
                    v = s.val(i.ops[0], env) * C(-1)
                elif op in ("sitofp", "uitofp", "fpext", "fptrunc", "sext", "zext", "freeze"):
                    v = s.val(i.ops[0], env)
                elif op in ("fcmp", "icmp"):
                    pr = (i.x[0] if isinstance(i.x, (list, tuple)) else i.x).lstrip("ous")
                    a, z = s.val(i.ops[0], env), s.val(i.ops[1], env)
                    if pr in ("gt", "ge"):
                        v = s.greater(a, z)
                    elif pr in ("lt", "le"):
                        v = s.greater(z, a)
                    else:
                        raise Undecided("comparison %s" % (i.x,))
                elif op == "select":
                    c = s.val(i.ops[0], env)
                    v = s.val(i.ops[1] if c is True else i.ops[2], env)
                elif op == "call":
                    n = i.x[1:]
                    if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                        continue
                    v = s.call(n, [s.val(o, env) for o in i.ops])
                    s.mod = f.mod
                else:
                    raise Undecided("instruction %s" % op)
                env[i.res] = v
            t = b.term
            if t.op == "ret":
                s.mod = old
                return s.val(t.ops[0], env)
            if t.op != "br":
                raise Undecided("terminator %s" % t.op)
            nxt = t.x[0] if not t.ops or s.val(t.ops[0], env) is True else t.x[1]
            b, pred = f.blocks[nxt], b.name


class BoundTask:
    cost = 0

    def __init__(s, prog, k, got):
        s.prog, s.k, s.fn, s.tags = prog, dict(k, **got), k["bound"], frozenset(("P09",))
        s.part = "folds 2..%d" % got["mf"]

    def run(s):
        k = s.k
        bad = None
        np = 0
        eps = float(k["eps"])
        cs = 7.0 * eps / (1.0 - 6.0 * math.sqrt(eps) - 7.0 * eps)
        tiny = F(2) ** (k["emin"] - 2)
        for fold in range(2, int(k["mf"]) + 1):
            want = F(2) ** int((1 - fold) * k["w"])
            todo = [()]
            while todo and not bad:
                d = todo.pop()
                try:
                    v = Eval(s.prog, d).run(s.prog.lookup(s.fn), [C(fold), E({("N",): F(1)}), E({("X",): F(1)}), E({("S",): F(1)})])
                except Fork as e:
                    todo += [d + ((e.key, False),), d + ((e.key, True),)]
                    if len(todo) > 50:
                        raise Undecided("too many cases")
                    continue
                np += 1
                big = None
                for (g, a, b), t in d:
                    if {a, b} == {"1*|X|", repr(C(tiny))}:
                        big = (a if t else b) == "1*|X|"
                rel = lambda got, ref: abs(float(got) / float(ref) - 1) < 1e-6 if got else False
                terms = dict(v.t)
                sabs = terms.pop(("|S|",), 0)
                nx = terms.pop(("N", "|X|"), 0)
                nt = terms.pop(("N",), 0)
                if terms:
                    bad = "fold %d: unexpected term in %r" % (fold, v)
                elif not rel(sabs, cs):
                    bad = "fold %d: %.6g|S| instead of %.6g|S|" % (fold, float(sabs), cs)
                elif nx and nt or big is None:
                    bad = "fold %d: %r under %s" % (fold, v, d)
                elif big and nx != want or not big and nt != want * tiny:
                    bad = "fold %d: %r; the discarded part is N*2^%d times the larger of |X| and the smallest slice" % (fold, v, (1 - fold) * k["w"])
            if bad:
                break
        return [Result(s.tags, s.fn, s.part, "the bound is the discarded part of N summands plus the conversion error", bad is None, bad or "%d cases" % np)]


def suite(ctx, pid):
    import registry
    t = ctx.tree
    t.generate(("binned",))
    ctx.prog("AVX", ("binned",))
    src = "sa_consts.c"
    with open(os.path.join(t.top, src), "w") as f:
        f.write('#include <float.h>\n#include <binned.h>\n#include "config.h"\n')
        for X, k in FMT.items():
            for n in NAMES:
                f.write("const double sa_%s_%s = (double)(%s);\n" % (X, n, k[n]))
    ll = t.compile([src], "AVX")[src]
    import ir
    m = ir.Module(ll)
    out = []
    prog = ctx.prog("AVX", ("binned",))
    for X, k in FMT.items():
        got = {}
        for n in NAMES:
            g = m.globals.get("@sa_%s_%s" % (X, n)) or m.globals.get("sa_%s_%s" % (X, n))
            v = getattr(g.init, "v", g.init)
            if not isinstance(v, (int, F)):
                raise registry.Anchor("constant %s is not a number (%r)" % (k[n], v))
            got[n] = F(v)
        out.append(ConstTask("include/binned.h %s" % {"D": "double", "S": "float"}[X], k, got))
        if prog.lookup(k["bound"]) is None:
            raise registry.Anchor("%s is gone" % k["bound"])
        out.append(BoundTask(prog, k, got))
    return out
