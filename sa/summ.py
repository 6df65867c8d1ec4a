"""Loop-nest summaries of straight-line / counted-loop C code (matrix routines, wrappers, element-wise loops, MPI operators).

A function is executed abstractly along one path per combination of loop-invariant conditions.  Integers are polynomials, pointers are
(base, polynomial byte offset), floating-point values are real polynomials over element atoms; a counted loop becomes one node with its
range, its body executed once with a symbolic index.  Calls with a contract become events; other calls whose body is in the tree are
followed.  Nothing is run and no solver is used; what the rules cannot classify is reported as undecided (and fails the obligation)."""
import re
from fractions import Fraction
from poly import Atom, Poly, ZERO, ONE


class Undecided(Exception):
    pass


class Fork(Exception):
    def __init__(s, key):
        s.key = key


class Base:
    __slots__ = ("name", "kind", "size", "id", "node", "freed", "typ")
    n = [0]

    def __init__(s, name, kind, size=None):
        s.n[0] += 1
        s.id, s.name, s.kind, s.size, s.node, s.freed = s.n[0], name, kind, size, None, 0

    def __repr__(s):
        return s.name


class Ptr:
    __slots__ = ("base", "off")

    def __init__(s, base, off):
        s.base, s.off = base, off

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.base is o.base and s.off == o.off

    def __hash__(s):
        return hash((id(s.base), s.off))

    def __repr__(s):
        return "%r+[%r]" % (s.base, s.off)


class Fn:
    """address of a function"""

    def __init__(s, name, mod=None):
        s.name, s.mod = name, mod

    def __eq__(s, o):
        return isinstance(o, Fn) and s.name == o.name

    def __hash__(s):
        return hash(s.name)

    def __repr__(s):
        return "&" + s.name


class Node:
    __slots__ = ("kind", "name", "args", "val", "typ", "var", "lo", "step", "his", "body", "line", "pos", "extra")

    def __init__(s, kind, **k):
        s.kind = kind
        s.name = s.args = s.val = s.typ = s.var = s.lo = s.step = s.his = s.body = s.line = s.pos = s.extra = None
        for a, v in k.items():
            setattr(s, a, v)

    def __repr__(s):
        if s.kind == "loop":
            return "for %s in %r..min%r step %r { %s }" % (s.var.name, s.lo, s.his, s.step, "; ".join(map(repr, s.body)))
        if s.kind == "call":
            return "%s(%s)" % (s.name, ", ".join(map(repr, s.args)))
        if s.kind == "store":
            return "%r = %r" % (s.args, s.val)
        return "%s %r" % (s.kind, s.args)


class Body(list):
    """a list of nodes that knows where it hangs"""

    def __init__(s, parent=None, pidx=None):
        super().__init__()
        s.parent, s.pidx, s.loop = parent, pidx, None


# ---------------------------------------------------------------- atoms
class Atoms:
    def __init__(s):
        s.tab = {}
        s.globals = {}

    def get(s, key, name):
        a = s.tab.get(key)
        if a is None:
            a = s.tab[key] = Atom(name, info=key)
        return a


OPAQUE_LOOP = "loopval"


def subst(p, m, at):
    """substitute integer atoms in a value, also inside element atoms"""
    if isinstance(p, Ptr):
        return Ptr(p.base, subst(p.off, m, at))
    if not isinstance(p, Poly):
        return p
    mm = {}
    for a in p.atoms():
        if a in m:
            mm[a] = m[a]
        elif a.info is not None:
            b = subst_atom(a, m, at)
            if b is not a:
                mm[a] = Poly.atom(b) if isinstance(b, Atom) else b
    return p.subst(mm) if mm else p


def subst_atom(a, m, at):
    i = a.info
    if i[0] == "elem":
        off = subst(i[2], m, at)
        if off is not i[2] and off != i[2]:
            k = ("elem", i[1], off, i[3], i[4])
            return at.get(k, "%s[%r]" % (i[1].name, off))
    elif i[0] == "fn":
        args = tuple(subst(x, m, at) if isinstance(x, (Poly, Ptr)) else x for x in i[2])
        if args != i[2]:
            return at.get(("fn", i[1], args), "%s(%s)" % (i[1], ", ".join(map(repr, args))))
    return a


def deep_atoms(p, out=None):
    out = set() if out is None else out
    if isinstance(p, Ptr):
        return deep_atoms(p.off, out)
    if isinstance(p, Poly):
        for a in p.atoms():
            if a in out:
                continue
            out.add(a)
            i = a.info
            if i is not None:
                if i[0] == "elem":
                    deep_atoms(i[2], out)
                elif i[0] == "fn":
                    for x in i[2]:
                        deep_atoms(x, out)
    return out


def is_loopy(p):
    return any(a.info is not None and a.info[0] in ("var", OPAQUE_LOOP, "phi") for a in deep_atoms(p))


FSIZE = {"f": 4, "d": 8}
MATH = {"sqrt", "sqrtf", "fabs", "fabsf", "llvm.fabs.f64", "llvm.fabs.f32", "llvm.sqrt.f64", "llvm.sqrt.f32", "llvm.maxnum.f64", "llvm.maxnum.f32"}
IGN = re.compile(r"llvm\.(lifetime|dbg|experimental|assume|donothing|stackrestore)")


class Summ:
    def __init__(s, prog, contracts, facts, at=None, values=None, follow=None):
        s.prog, s.contracts, s.assumed = prog, contracts, facts
        s.facts = dict(facts)
        s.at = at or Atoms()
        s.values = values or {}
        s.body = Body()
        s.mem = {}
        s.wr = None
        s.depth = 0
        s.ncalls = 0
        s.bases = []
        s.eq = {}
        s.follow = follow
        s.nvar = 0
        s.insts = 0
        s.globals = s.at.globals
        s.rets = None
        s.touched = set()
        s.reads = []
        s.line = None
        for (k, v) in facts:
            s.learn(k, v)

    # ------------------------------------------------ conditions
    def learn(s, k, v):
        s.facts[k] = v
        if v and k[0] in ("ieq", "feq"):
            p = k[1]
            for a in p.atoms():
                if (a,) in p.d and all(a not in m or m == (a,) for m in p.d):
                    c = p.d[(a,)]
                    rest = Poly({m: w for m, w in p.d.items() if m != (a,)}).scale(Fraction(-1) / c)
                    if rest.is_const():
                        s.eq[a] = rest
                        break

    def sub(s, p):
        return p.subst(s.eq) if s.eq else p

    def decide(s, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "not":
            return not s.decide(c[1])
        if k == "and":
            return s.decide(c[1]) and s.decide(c[2])
        if k == "or":
            return s.decide(c[1]) or s.decide(c[2])
        key, val = s.known(c)
        if val is not None:
            return val
        if is_loopy(key[1]):
            raise Undecided("a condition inside a loop depends on the iteration: %r" % (key,))
        raise Fork(key)

    def known(s, key):
        p = s.sub(key[1])
        if p.is_const():
            c = p.cval()
            return key, {"ieq": c == 0, "feq": c == 0, "slt": c < 0, "flt": c < 0, "null": False}[key[0]]
        key = s.canon(key[0], p)
        if key[0] == "pneq":
            pass
        if key in s.facts:
            return key, s.facts[key]
        if key[0] == "slt":                 # not both p < 0 and -p - 1 < 0 ...
            o = ("slt", -p - 1)
            if o in s.facts:
                return key, not s.facts[o]
            # p < 0 known from stronger facts about the same non-constant part
            q, sg, c = p.norm()
            for (fk, fp), v in list(s.facts.items()):
                if fk != "slt":
                    continue
                fq, fsg, fc = fp.norm()
                if fq == q and fsg == sg:
                    if v and c <= fc:
                        return key, True
                    if not v and c >= fc:
                        return key, False
                elif fq == q and fsg == -sg:
                    # fact: -q' + fc < 0 (true)  => q' > fc ; question: q' + c < 0
                    if v and fc + 1 + c >= 0:
                        return key, False
                    if not v and -(-fc) + c < 0 and False:
                        return key, True
        if key[0] in ("ieq", "feq"):
            for o in ("slt", "flt"):
                for q in (p, -p):
                    if s.facts.get((o, q)):
                        return key, False
        return key, None

    def canon(s, k, p):
        if k in ("ieq", "feq"):
            q, sg, c = p.norm()
            p = q + c * sg
        return (k, p)

    def cmp(s, it, a, b):
        cc = it.x
        if it.op == "fcmp":
            base = cc[1:] if cc[0] in "ou" else cc
            if cc in ("uno", "ord"):
                raise Undecided("NaN test")
            d = a - b
        else:
            if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Fn) or isinstance(b, Fn):
                r = s.ptrcmp(a, b)
                return r if cc == "eq" else ("not", r) if not isinstance(r, bool) else not r
            if isinstance(a, (tuple, bool)) or isinstance(b, (tuple, bool)):
                a, b = s.asint(a), s.asint(b)
            base = cc[1:] if cc[0] in "su" and cc not in ("sub",) else cc
            d = a - b
        eq, lt = ("feq", "flt") if it.op == "fcmp" else ("ieq", "slt")
        if base == "eq":
            return s.canon(eq, d)
        if base == "ne":
            return ("not", s.canon(eq, d))
        if it.op == "icmp":
            if base == "lt":
                return (lt, d)
            if base == "gt":
                return (lt, -d)
            if base == "le":
                return (lt, d - 1)
            if base == "ge":
                return (lt, -d - 1)
        if base == "lt":
            return (lt, d)
        if base == "gt":
            return (lt, -d)
        if base == "le":
            return ("not", (lt, -d))
        if base == "ge":
            return ("not", (lt, d))
        raise Undecided("comparison " + cc)

    def ptrcmp(s, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base and a.off == b.off:
            return True
        x = a if isinstance(a, Ptr) else b
        o = b if x is a else a
        if o == "null" and isinstance(x, Ptr) and x.base.kind in ("heap", "alloca", "global", "param"):
            return False            # allocation failure is outside the properties; parameters are valid
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return ("ieq", Poly.atom(s.at.get(("fn", "ptrdiff", (a, b)), "ptrdiff")))
        if isinstance(a, Poly) or isinstance(b, Poly):
            p, q = (a, b) if isinstance(a, Poly) else (b, a)
            return ("ieq", p - (q if isinstance(q, Poly) else Poly.atom(s.at.get(("fn", "addr", (q,)), repr(q)))))
        raise Undecided("pointer comparison %r %r" % (a, b))

    def asint(s, v):
        if isinstance(v, (tuple, bool)):
            return ONE if s.decide(v) else ZERO
        return v

    # ------------------------------------------------ values
    def fresh(s, why, ptr=False):
        s.nvar += 1
        return Poly.atom(Atom("%s#%d" % (why, s.nvar), info=(OPAQUE_LOOP, why, s.nvar)))

    def const(s, o):
        t = o.ty.k
        if o.v == "undef":
            return s.fresh("undef")
        if t == "ptr":
            if o.v in ("null", "zero"):
                return "null"
        if t in ("i", "f", "d", "fp80"):
            if o.v == "zero" or o.v == "-0":
                return ZERO
            if isinstance(o.v, (int, Fraction)):
                if t == "i" and o.ty.n == 1:
                    return bool(o.v)
                return Poly.const(o.v)
            if o.v in ("inf", "-inf", "nan"):
                return Poly.atom(s.at.get(("fn", o.v, ()), o.v))
        raise Undecided("constant %r" % (o,))

    def val(s, o, env):
        if o.k == "v":
            if o.v not in env:
                env[o.v] = s.fresh("value of an earlier loop")
            return env[o.v]
        if o.k == "g":
            return s.glob(o.v)
        if o.k == "c":
            return s.const(o)
        if o.k == "ce":
            if o.v[0] == "gep":
                return s.gep(o.v[1], [s.val(q, env) for q in o.v[2]])
        raise Undecided("operand %r" % (o,))

    def glob(s, n):
        if s.prog.lookup(n, s.mod) is not None or n not in s.mod.globals:
            return Fn(n, s.mod)
        b = s.globals.get(n)
        if b is None:
            b = s.globals[n] = Base("@" + n, "global")
        return Ptr(b, ZERO)

    def gep(s, bt, vals):
        p = vals[0]
        if not isinstance(p, Ptr):
            raise Undecided("address computed from %r" % (p,))
        off = p.off + s.asint(vals[1]) * bt.size()
        t = bt
        for i in vals[2:]:
            if t.k in ("arr", "vec"):
                off = off + s.asint(i) * t.t.size()
                t = t.t
            elif t.k == "struct":
                o, t = t.field(int(i.cval()))
                off = off + o
            else:
                raise Undecided("gep")
        return Ptr(p.base, off)

    def load(s, p, ty):
        if not isinstance(p, Ptr):
            raise Undecided("load from %r" % (p,))
        k = ty.k
        if (p.base.kind in ("alloca", "heap") or p.base in s.touched) and p.off.is_const():
            v = s.mem.get((p.base, p.off.cval(), ))
            if v is not None:
                if v[1] == "memset":
                    pass
                elif v[1] == k:
                    return v[0]
                else:
                    raise Undecided("type punning at %r" % (p,))
        if k in ("f", "d"):
            if p.base.kind == "param":
                s.reads.append((p.base, p.off, s.line))
            a = s.elem(p.base, p.off, k, (s.body, len(s.body)) if p.base.kind in ("heap", "alloca") else None)
            return s.eq.get(a, Poly.atom(a))
        key = ("ld", p.base, p.off, k, ty.n)
        if p.base.kind in ("alloca", "heap") or s.wr_base(p.base):
            raise Undecided("read of %s content at %r" % (k, p))
        a = s.at.get(("fn", "load." + k, (p,)), "*(%r)" % (p,))
        if k == "ptr":
            b = s.globals.get(("ptr", p))
            if b is None:
                b = s.globals[("ptr", p)] = Base("*(%r)" % (p,), "param")
            return Ptr(b, ZERO)
        return s.eq.get(a, Poly.atom(a))

    def wr_base(s, b):
        return b in s.touched

    def elem(s, base, off, k, pos=None):
        if pos is not None:
            pos = PosKey(pos)
        return s.at.get(("elem", base, off, k, pos), "%s[%r]" % (base.name, off))

    def store(s, p, v, ty, line=None):
        if not isinstance(p, Ptr):
            raise Undecided("store to %r" % (p,))
        s.touched.add(p.base)
        if isinstance(v, (bool, tuple)):
            v = s.asint(v)
        if p.base.kind == "alloca":
            if p.off.is_const():
                s.mem[(p.base, p.off.cval())] = (v, ty.k if hasattr(ty, "k") else ty)
                if s.wr is not None:
                    s.wr.add((p.base, p.off.cval()))
                return
            for key in [k for k in s.mem if k[0] is p.base]:
                del s.mem[key]
            if s.wr is not None:
                s.wr.add((p.base, None))
        s.body.append(Node("store", args=p, val=v, typ=ty.k if hasattr(ty, "k") else ty, line=line, pos=(s.body, len(s.body))))

    # ------------------------------------------------ execution
    def run(s, fn, args):
        f = s.prog.lookup(*fn) if isinstance(fn, tuple) else s.prog.lookup(fn)
        if f is None:
            raise Undecided("%s is not defined in the tree" % fn)
        s.args = args
        return s.func(f, args)

    def func(s, f, args):
        if s.depth > 12:
            raise Undecided("recursion at " + f.name)
        if f.irreducible:
            raise Undecided("irreducible control flow in " + f.name)
        s.depth += 1
        mod = getattr(s, "mod", None)
        s.mod = f.mod
        env = {a: v for (a, v) in zip([x[0] if isinstance(x, tuple) else x for x in f.args], args)}
        fr = Frame(f, env)
        cur, pred = f.order[0].name, None
        while True:
            r = s.block(fr, cur, pred)
            if r[0] == "ret":
                s.depth -= 1
                s.mod = mod
                return r[1]
            cur, pred = r[1], r[2]

    def block(s, fr, name, pred, inloop=None):
        """executes one block (or a whole loop) -> ('ret', v) | ('br', next, from)"""
        f, env = fr.f, fr.env
        if name in f.loops and name != inloop:
            return s.loop(fr, name, pred)
        b = f.blocks[name]
        if name != inloop:
            s.phis(fr, b, pred)
        for it in b.insts:
            s.inst(fr, it)
        return s.term(fr, b, inloop)

    def phis(s, fr, b, pred):
        if b.phis:
            new = {}
            for it in b.phis:
                for o, pb in zip(it.ops, it.x):
                    if pb == pred:
                        new[it.res] = s.val(o, fr.env)
                        break
                else:
                    raise Undecided("phi")
            fr.env.update(new)

    def term(s, fr, b, inloop):
        t = b.term
        if t.op == "ret":
            return ("ret", s.val(t.ops[0], fr.env) if t.ops else None)
        if t.op == "unreachable":
            raise Undecided("unreachable code reached")
        if t.op == "br":
            if len(t.x) == 1:
                return ("br", t.x[0], b.name)
            c = s.val(t.ops[0], fr.env)
            if t.x[0] == t.x[1]:
                return ("br", t.x[0], b.name)
            lc = fr.loops[-1] if fr.loops else None
            if lc is not None:
                ins = [x in lc.blocks for x in t.x]
                if ins[0] != ins[1]:
                    lc.exit(c if ins[0] else ("not", c), t.x[1] if ins[0] else t.x[0], b.name, s)
                    return ("br", t.x[0] if ins[0] else t.x[1], b.name)
            return ("br", t.x[0] if s.decide(c) else t.x[1], b.name)
        if t.op == "switch":
            v = s.asint(s.val(t.ops[0], fr.env))
            if fr.loops and any(x not in fr.loops[-1].blocks for x in b.succ):
                raise Undecided("loop left through a switch")
            tgt = None
            for cv, lab in t.x[1]:
                if s.decide(s.canon("ieq", v - Poly.const(cv))):
                    tgt = lab
                    break
            return ("br", tgt or t.x[0], b.name)
        raise Undecided("terminator " + t.op)

    def loop(s, fr, head, pred):
        f = fr.f
        hb = f.blocks[head]
        s.phis(fr, hb, pred)
        start = {it.res: fr.env[it.res] for it in hb.phis}
        # pass 1: opaque loop-carried values
        env0, mem0, body0, wr0 = dict(fr.env), dict(s.mem), s.body, s.wr
        nb = len(body0)
        opq = {}
        for it in hb.phis:
            v = start[it.res]
            s.nvar += 1
            a = Atom("%s@%s" % (it.res, head), info=("phi", it.res, s.nvar))
            opq[it.res] = a
            fr.env[it.res] = Ptr(v.base, Poly.atom(a)) if isinstance(v, Ptr) else Poly.atom(a)
        s.wr = set()
        s.body = Body(body0, nb)
        lc = LoopCtx(head, f.loops[head])
        nxt = s.iterate(fr, lc, hb)
        wr = s.wr
        # classify
        kap = Atom("k", info=("var",))
        m = {}
        dead = set()
        for r, a in opq.items():
            n, v = nxt[r], start[r]
            no = n.off if isinstance(n, Ptr) else n
            vo = v.off if isinstance(v, Ptr) else v
            ok = isinstance(no, Poly) and isinstance(vo, Poly) and (not isinstance(n, Ptr) or isinstance(v, Ptr) and n.base is v.base)
            if ok:
                d = no - Poly.atom(a)
                if not any(x.info is not None and x.info[0] in ("phi", OPAQUE_LOOP, "elem") and (x in opq.values() or x.info[0] != "phi") for x in deep_atoms(d)) \
                        and not any(x in lc.vars for x in deep_atoms(d)):
                    m[a] = vo + d * Poly.atom(kap)
                    continue
            dead.add(r)
        # loop conditions in terms of the trip counter
        conds = []
        for c in lc.conds:
            conds += s.conj(c)
        w, spec = None, []
        for k, p, want in conds:
            p = subst(p, m, s.at)
            at = deep_atoms(p)
            if kap not in at:
                # invariant: must hold for the loop to be entered at all
                if not s.decide_key(k, p) == want:
                    s.after(fr, env0, mem0, body0, wr0, start, None)
                    return ("br",) + lc.out[1:]
                continue
            if any(x.info is not None and x.info[0] == "phi" and x in opq.values() for x in at):
                raise Undecided("loop condition depends on a value the loop changes irregularly")
            co = p.d.get((kap,), 0)
            rest = Poly({q: c for q, c in p.d.items() if q != (kap,)})
            if not co or kap in deep_atoms(rest):
                raise Undecided("loop condition not linear in the trip count: %r" % p)
            if k == "ieq" and not want and abs(co) == 1:
                k, want = "slt", True
                if co < 0:
                    co, rest = -co, -rest
            if k != "slt":
                raise Undecided("loop condition %s" % k)
            if not want:                      # not p < 0  <=>  -p - 1 < 0
                co, rest = -co, -rest - 1
            spec.append((co, rest))
        if not spec or any(co <= 0 for co, _ in spec):
            raise Undecided("loop without an upper bound")
        # k < ceil(-rest/co) for each: choose the variable of the first induction with a matching step
        co0, rest0 = spec[0]
        lo = None
        for r, a in opq.items():
            if a in m:
                d = m[a].d.get((kap,), 0)
                if d == co0 and (Poly({q: c for q, c in m[a].d.items() if kap in q}) == Poly({(kap,): d})):
                    lo = Poly({q: c for q, c in m[a].d.items() if q != (kap,)})
                    break
        if lo is None:
            lo = ZERO
        s.nvar += 1
        lc.blocks_var = True
        var = Atom("%s%d" % (head.strip("%").split(".")[0], s.nvar), info=("var", s.nvar))
        his = []
        for co, rest in spec:
            if co != co0:
                if co0 == 1 or True:
                    raise Undecided("loop conditions advance differently")
            # k*co + rest < 0  with var = lo + co*k:   var < lo - rest
            his += s.mins(lo - rest)
        kp = (Poly.atom(var) - lo).scale(Fraction(1) / co0)
        # pass 2
        fr.env = dict(env0)
        s.mem = {k: v for k, v in mem0.items() if not (k in wr or (k[0], None) in wr)}
        s.wr = set()
        s.body = Body(body0, nb)
        node = Node("loop", var=var, lo=lo, step=co0, his=tuple(dedupe(his)), body=s.body, pos=(body0, nb))
        s.body.loop = node
        for it in hb.phis:
            a = opq[it.res]
            v = start[it.res]
            if it.res in dead:
                x = s.fresh("value carried round the loop")
                fr.env[it.res] = Ptr(v.base, x) if isinstance(v, Ptr) else x
            else:
                x = m[a].subst({kap: kp})
                fr.env[it.res] = Ptr(v.base, x) if isinstance(v, Ptr) else x
        lc2 = LoopCtx(head, f.loops[head])
        s.iterate(fr, lc2, hb)
        s.after(fr, env0, mem0, body0, wr0, start, node)
        s.mem = {k: v for k, v in mem0.items() if not (k in wr or (k[0], None) in wr)}
        if wr0 is not None:
            wr0 |= wr
        return ("br",) + lc2.out[1:]

    def after(s, fr, env0, mem0, body0, wr0, start, node):
        fr.env = dict(env0)
        for r, v in start.items():
            if node is None:
                fr.env[r] = v
            else:
                x = s.fresh("value after the loop")
                fr.env[r] = Ptr(v.base, x) if isinstance(v, Ptr) else x
        s.body, s.wr, s.mem = body0, wr0, mem0
        if node is not None:
            body0.append(node)

    def iterate(s, fr, lc, hb):
        fr.loops.append(lc)
        for it in hb.insts:
            s.inst(fr, it)
        r = s.term(fr, hb, hb.name)
        lc.start = s
        while True:
            if r[0] == "ret":
                raise Undecided("return from inside a loop")
            if r[1] == hb.name:
                break
            if r[1] not in lc.blocks:
                raise Undecided("loop left in the middle")
            if len(s.body):
                lc.sealed = True
            r = s.block(fr, r[1], r[2])
        if lc.out is None:
            raise Undecided("loop without exit")
        pred = r[2]
        nxt = {}
        for it in hb.phis:
            for o, pb in zip(it.ops, it.x):
                if pb == pred:
                    nxt[it.res] = s.val(o, fr.env)
        fr.loops.pop()
        return nxt

    def conj(s, c):
        """conjunction -> [(kind, poly, wanted truth)]"""
        if c is True:
            return []
        if c is False:
            return [("ieq", ONE, True)]
        if c[0] == "and":
            return s.conj(c[1]) + s.conj(c[2])
        if c[0] == "not":
            d = c[1]
            if d is True or d is False:
                return s.conj(not d)
            if d[0] == "not":
                return s.conj(d[1])
            if d[0] == "or":
                return s.conj(("not", d[1])) + s.conj(("not", d[2]))
            if d[0] == "and":
                raise Undecided("loop condition is a disjunction")
            return [(d[0], d[1], False)]
        if c[0] == "or":
            raise Undecided("loop condition is a disjunction")
        return [(c[0], c[1], True)]

    def decide_key(s, k, p):
        return s.decide((k, p))

    def mins(s, h):
        for q, c in h.d.items():
            if len(q) == 1 and c == 1 and q[0].info is not None and q[0].info[0] == "fn" and q[0].info[1] == "min":
                rest = h - Poly.atom(q[0])
                out = []
                for x in q[0].info[2]:
                    out += s.mins(x + rest)
                return out
        return [h]

    def minof(s, a, b):
        a, b = s.sub(a), s.sub(b)
        d = a - b
        if d.is_const():
            return a if d.cval() <= 0 else b
        xs = sorted(set(s.mins(a) + s.mins(b)), key=repr)
        return Poly.atom(s.at.get(("fn", "min", tuple(xs)), "min(%s)" % ", ".join(map(repr, xs))))

    def inst(s, fr, it):
        s.insts += 1
        s.line = it.line
        env = fr.env
        op = it.op
        if op == "call":
            v = s.call(fr, it)
            if it.res:
                env[it.res] = v
            return
        if op == "store":
            s.store(s.val(it.ops[1], env), s.val(it.ops[0], env), it.ty, it.line)
            return
        if op == "load":
            env[it.res] = s.load(s.val(it.ops[0], env), it.ty)
            return
        if op == "alloca":
            b = Base(it.res, "alloca", Poly.const(it.x.size()))
            b.node = (s.body, len(s.body))
            env[it.res] = Ptr(b, ZERO)
            return
        if op == "getelementptr":
            env[it.res] = s.gep(it.x, [s.val(o, env) for o in it.ops])
            return
        if op in ("icmp", "fcmp"):
            env[it.res] = s.cmp(it, s.val(it.ops[0], env), s.val(it.ops[1], env))
            return
        if op == "select":
            c, a, b = [s.val(o, env) for o in it.ops]
            env[it.res] = s.select(c, a, b, it)
            return
        vs = [s.val(o, env) for o in it.ops]
        if op in ("sext", "zext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "bitcast", "freeze", "fptosi"):
            v = vs[0]
            if op in ("sext", "zext") and isinstance(v, (bool, tuple)):
                v = s.asint(v)
                if op == "sext":
                    v = -v
            if op == "fptosi" and isinstance(v, Poly) and not v.is_const():
                v = Poly.atom(s.at.get(("fn", "fptosi", (v,)), "int(%r)" % v))
            if op == "trunc" and it.ty.n == 1 and isinstance(v, Poly):
                v = ("not", s.canon("ieq", v))
            env[it.res] = v
            return
        if op in ("and", "or", "xor") and it.ty.k == "i" and it.ty.n == 1:
            a, b = vs
            env[it.res] = s.logic(op, a, b)
            return
        if op in ("ptrtoint", "inttoptr"):
            v = vs[0]
            env[it.res] = Poly.atom(s.at.get(("fn", "addr", (v,)), "addr(%r)" % (v,))) if op == "ptrtoint" else s.unaddr(v)
            return
        if len(vs) == 2:
            a, b = [s.asint(v) for v in vs]
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                raise Undecided("%s of %r %r" % (op, a, b))
            if op in ("add", "fadd"):
                r = a + b
            elif op in ("sub", "fsub"):
                r = a - b
            elif op in ("mul", "fmul"):
                r = a * b
            elif op == "shl" and b.is_const():
                r = a.scale(2 ** int(b.cval()))
            elif op == "fdiv" and b.is_const() and b.cval():
                r = a.scale(Fraction(1) / b.cval())
            elif op in ("sdiv", "udiv", "srem", "urem") and a.is_const() and b.is_const() and b.cval():
                x, y = int(a.cval()), int(b.cval())
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = Poly.const(q if op[1:] == "div" else x - q * y)
            elif op in ("sdiv", "udiv") and b.is_const() and b.cval() and all(c % b.cval() == 0 for c in a.d.values()):
                r = a.scale(Fraction(1) / b.cval())
            else:
                r = Poly.atom(s.at.get(("fn", op, (a, b)), "%s(%r, %r)" % (op, a, b)))
            env[it.res] = r
            return
        if op == "fneg":
            env[it.res] = -vs[0]
            return
        if op in ("extractelement", "insertelement", "insertvalue", "extractvalue"):
            raise Undecided("vector or aggregate value")
        raise Undecided("instruction " + op)

    def unaddr(s, v):
        raise Undecided("integer converted to pointer")

    def logic(s, op, a, b):
        if isinstance(a, Poly):
            a = bool(a.cval()) if a.is_const() else ("not", ("ieq", a))
        if isinstance(b, Poly):
            b = bool(b.cval()) if b.is_const() else ("not", ("ieq", b))
        if op == "and":
            if a is False or b is False:
                return False
            return b if a is True else a if b is True else ("and", a, b)
        if op == "or":
            if a is True or b is True:
                return True
            return b if a is False else a if b is False else ("or", a, b)
        if b is True:
            return (not a) if isinstance(a, bool) else ("not", a)
        if b is False:
            return a
        if a is True:
            return (not b) if isinstance(b, bool) else ("not", b)
        return ("not" if s.decide(a) else "and", b) if s.decide(a) else b

    def select(s, c, a, b, it):
        if it.ty.k == "i" and it.ty.n == 1:
            if b is False:
                return s.logic("and", c, a)
            if a is True:
                return s.logic("or", c, b)
            if a is False:
                return s.logic("and", s.logic("xor", c, True), b)
            if b is True:
                return s.logic("or", s.logic("xor", c, True), a)
        if c is True or c is False:
            return a if c else b
        if a is b or a == b:
            return a
        neg = False
        d = c
        while d[0] == "not":
            neg, d = not neg, d[1]
        if neg:
            a, b = b, a
        if d[0] == "slt" and isinstance(a, Poly) and isinstance(b, Poly):
            # d: e < 0.  select(x - y < c, x, y)
            if d[1] == a - b or d[1] == a - b - 1:
                k, v = s.known(d)
                if v is None:
                    return s.minof(a, b)
                return a if v else b
            if d[1] == b - a or d[1] == b - a - 1:
                k, v = s.known(d)
                if v is None:
                    m = s.minof(-a, -b)
                    return -m
                return a if v else b
        return a if s.decide(d) else b

    # ------------------------------------------------ calls
    def call(s, fr, it):
        if it.x[0] != "@":
            raise Undecided("indirect call")
        name = it.x[1:]
        if IGN.match(name):
            return None
        env = fr.env
        args = [s.val(o, env) for o in it.ops]
        args = [s.asint(a) if isinstance(a, (bool, tuple)) else a for a in args]
        if name in ("malloc", "calloc"):
            n = args[0] if name == "malloc" else args[0] * args[1]
            b = Base("heap%d" % (len(s.bases) + 1), "heap", n)
            b.node = (s.body, len(s.body))
            s.bases.append(b)
            s.body.append(Node("malloc", args=b, line=it.line, pos=(s.body, len(s.body))))
            if name == "calloc":
                s.body.append(Node("fill", args=(Ptr(b, ZERO), n), line=it.line, pos=(s.body, len(s.body))))
            return Ptr(b, ZERO)
        if name == "free":
            s.body.append(Node("free", args=args[0], line=it.line, pos=(s.body, len(s.body))))
            if isinstance(args[0], Ptr):
                args[0].base.freed += 1
            return None
        if name.startswith("llvm.memset") or name == "memset":
            if args[1] != ZERO:
                raise Undecided("memset with a nonzero byte")
            s.touched.add(args[0].base)
            for key in [k for k in s.mem if k[0] is args[0].base]:
                del s.mem[key]
            s.body.append(Node("fill", args=(args[0], args[2]), line=it.line, pos=(s.body, len(s.body))))
            return args[0]
        if name.startswith("llvm.memcpy") or name in ("memcpy", "memmove") or name.startswith("llvm.memmove"):
            s.touched.add(args[0].base)
            for key in [k for k in s.mem if k[0] is args[0].base]:
                del s.mem[key]
            s.body.append(Node("copy", args=tuple(args[:3]), line=it.line, pos=(s.body, len(s.body))))
            return args[0]
        if name.startswith("llvm.smin") or name.startswith("llvm.umin"):
            return s.minof(args[0], args[1])
        if name.startswith("llvm.smax") or name.startswith("llvm.umax"):
            return -s.minof(-args[0], -args[1])
        if name.startswith("llvm.fmuladd"):
            return args[0] * args[1] + args[2]
        if name in MATH:
            n = "sqrt" if "sqrt" in name else "fabs" if "fabs" in name else "max"
            return Poly.atom(s.at.get(("fn", n, tuple(args)), "%s(%s)" % (n, ", ".join(map(repr, args)))))
        c = s.contracts.get(name)
        if c is not None:
            return c(s, name, args, it)
        f = s.prog.lookup(name, s.mod)
        if f is not None and (s.follow is None or s.follow(name)):
            return s.func(f, args)
        return s.event(name, args, it)

    def event(s, name, args, it, rty=None):
        n = Node("call", name=name, args=args, line=it.line, pos=(s.body, len(s.body)))
        s.ncalls += 1
        for a in args:
            if isinstance(a, Ptr):
                s.touched.add(a.base)
        s.body.append(n)
        if it.ty is not None and it.ty.k != "void":
            if it.ty.k == "ptr":
                b = Base("ret of %s" % name, "param")
                n.val = Ptr(b, ZERO)
                return n.val
            n.val = Atom("%s()#%d" % (name, s.ncalls), info=("fn", "ret:%s" % name, tuple(a for a in args if isinstance(a, (Poly, Ptr)))) if False else ("call", n))
            return Poly.atom(n.val)
        return None


class PosKey:
    """hashable program point: (body list, index)"""
    __slots__ = ("body", "idx")

    def __init__(s, pos):
        s.body, s.idx = pos

    def __eq__(s, o):
        return isinstance(o, PosKey) and s.body is o.body and s.idx == o.idx

    def __hash__(s):
        return hash((id(s.body), s.idx))

    def __repr__(s):
        return "@"


class Frame:
    def __init__(s, f, env):
        s.f, s.env, s.loops = f, env, []


class LoopCtx:
    def __init__(s, head, blocks):
        s.head, s.blocks, s.conds, s.out, s.vars, s.sealed = head, blocks, [], None, set(), False

    def exit(s, stay, target, frm, S):
        if S.body:
            raise Undecided("loop left after it has had an effect in the iteration")
        s.conds.append(stay)
        o = ("out", target, frm)
        if s.out is not None and s.out[1] != target:
            raise Undecided("loop with two different exits")
        s.out = o


def dedupe(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


# ---------------------------------------------------------------- driver: one run per combination of loop-invariant conditions
def paths(prog, fn, mkargs, contracts, facts0=(), limit=400, follow=None):
    """-> list of (facts, Summ, ret)"""
    out = []
    todo = [tuple(facts0)]
    at = Atoms()
    while todo:
        fs = todo.pop()
        S = Summ(prog, contracts, fs, at, follow=follow)
        S.entry = mkargs(S)
        try:
            r = S.run(fn, [v for _, v in S.entry])
            out.append((fs, S, r))
        except Fork as e:
            todo.append(fs + ((e.key, False),))
            todo.append(fs + ((e.key, True),))
        if len(out) + len(todo) > limit:
            raise Undecided("more than %d paths" % limit)
    return out
