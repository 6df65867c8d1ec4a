"""Specifications of the accumulator primitives (src/binned) and the machinery that decides them.

Every function is interpreted abstractly (absint) once per partition of its entry states: fold, bin index of each head,
class of each component (empty / regular bin / NaN / infinity) and class of the scalar arguments.  Strides, cell contents
within their bin window and element values stay symbolic.  The exit states are compared with the specified ones as value
forms (polynomials over entry cells, rounding atoms and constants)."""
import os, sys, traceback
from fractions import Fraction
from poly import Poly, Atom, ZERO, ONE
from absint import (F, Ptr, Region, Cond, UNDEF, Client, AnalysisBroken, analyse, fclass, frange, Interp, CInt, Bits, MANT)

TWO = Fraction(2)


class Prec:
    def __init__(s, r):
        s.r = r
        if r == "d":
            s.es, s.mant, s.maxexp, s.minexp, s.W = 8, 53, 1024, -1021, 40
        else:
            s.es, s.mant, s.maxexp, s.minexp, s.W = 4, 24, 128, -125, 13
        s.maxindex = (s.maxexp - s.minexp + s.mant - 1) // s.W - 1
        s.maxfold = s.maxindex + 1
        s.comp = Fraction(1, 1 << (s.mant - s.W + 1))
        s.exp = 1 / s.comp
        s.k = "d" if r == "d" else "f"
        s.denorm = Fraction(2) ** (s.minexp - s.mant)

    def E(s, k):
        """exponent of the unit in the first place of bin k"""
        k = min(k, s.maxindex)
        return s.maxexp - 1 if k == 0 else s.maxexp + s.mant - s.W - k * s.W

    def bin(s, k):
        return Fraction(3, 2) * TWO ** s.E(k)

    def rng_of_index(s, k):
        """frexp-style exponents e (value in [2^(e-1), 2^e)) whose index is k, normal numbers only"""
        return [e for e in range(s.minexp, s.maxexp + 1) if min((s.maxexp - e) // s.W, s.maxindex) == k]


PREC = {"d": Prec("d"), "s": Prec("s")}
REALOF = {"d": "d", "z": "d", "s": "s", "c": "s"}
COMPS = {"d": 1, "z": 2, "s": 1, "c": 2}


def isF0(v):
    return isinstance(v, F) and not v.odd and (v.p == ZERO or (fclass(v) or ("",))[0] == "zero")


class Acc:
    """a binned accumulator operand: layout, entry state per component"""

    def __init__(s, name, prec, comps, fold, states, manual, window="norm", stride=None, cells=True):
        s.name, s.P, s.comps, s.fold, s.states, s.manual, s.window = name, prec, comps, fold, states, manual, window
        if manual:
            s.pr = Region("pri" + name, "arg")
            s.cr = Region("car" + name, "arg")
            s.pi = Atom("incpri" + name, nz=True)
            s.ci = Atom("inccar" + name, nz=True)
        else:
            s.pr = s.cr = Region(name, "arg")
            s.base = ZERO
        s.extra = ZERO

    def pri(s, j, c):
        es = s.P.es
        if s.manual:
            return s.pr, Poly.atom(s.pi).scale(es * s.comps * j) + es * c
        return s.pr, s.extra + Poly.const(es * (s.comps * j + c))

    def car(s, j, c):
        es = s.P.es
        if s.manual:
            return s.cr, Poly.atom(s.ci).scale(es * s.comps * j) + es * c
        return s.cr, s.extra + Poly.const(es * (s.comps * s.fold + s.comps * j + c))

    def args(s, incs=True):
        if s.manual:
            return [Ptr(s.pr, ZERO), Poly.atom(s.pi), Ptr(s.cr, ZERO), Poly.atom(s.ci)]
        return [Ptr(s.pr, s.extra)]

    def priargs(s):
        if s.manual:
            return [Ptr(s.pr, ZERO), Poly.atom(s.pi)]
        return [Ptr(s.pr, s.extra)]

    def cells(s):
        for c in range(s.comps):
            for j in range(s.fold):
                yield ("p", j, c) + s.pri(j, c)
                yield ("c", j, c) + s.car(j, c)

    def val(s, ip, kind, j, c):
        """entry value form of a cell"""
        P, st = s.P, s.states[c]
        pr = P.k
        nm = "%s%s%d%s" % (kind, s.name, j, "ri"[c] if s.comps > 1 else "")
        if kind == "c":
            if st[0] == "e":                              # freshly emptied bins
                return F(ZERO, prec=pr)
            b = TWO ** (P.mant - 3)
            return F(Poly.atom(ip.opaque("cell", s.name, nm, name=nm, rng=(-b, b), g=0)), prec=pr)
        if st[0] == "z":
            if j == 0:
                return F(ZERO, prec=pr)
            return F(Poly.atom(ip.opaque("cell", s.name, nm, name=nm, cls=("fin",))), prec=pr)
        if st[0] == "nan" and j == 0:
            return F(Poly.atom(ip.opaque("cell", s.name, nm, name=nm, cls=("nan",))), prec=pr)
        if st[0] == "inf" and j == 0:
            return F(Poly.atom(ip.opaque("cell", s.name, nm, name=nm, cls=("inf", st[1]))), prec=pr)
        k = (st[1] if st[0] in ("b", "e") else 3) + j
        if st[0] == "e":
            return F(Poly.const(P.bin(k)), prec=pr)
        e = P.E(k)
        u = TWO ** e
        g = e - (P.mant - 1)
        lo, hi = (u * Fraction(3, 2), u * Fraction(7, 4)) if s.window == "norm" else (u, 2 * u)
        return F(Poly.atom(ip.opaque("cell", s.name, nm, name=nm, rng=(lo, hi - TWO ** g), g=g, cls=("norm", e, 0))), prec=pr)

    def index(s, c):
        return s.states[c][1] if s.states[c][0] in ("b", "e") else None


class SmallClient(Client):
    strict_undef = False
    check_overflow = True

    def __init__(s, P):
        s.P = P
        s.viol = []
        s.foot = {}          # region -> {off: set('rw')} or None
        s.values = {}        # (region, off) -> value
        s.zeroed = []
        s.calls = []
        s.allocs = []
        s.freed = []
        s.undefs = []
        s.overflow = []
        s.deposits = []

    def bad(s, kind, msg, inst=None):
        e = (kind, msg, getattr(inst, "line", None))
        if e not in s.viol:
            s.viol.append(e)

    def init_load(s, st, r, off, ty, inst):
        v = s.values.get((r, off))
        return v

    def check(s, r, off, mode, inst, ip):
        f = s.foot.get(r)
        if r.kind == "heap":
            return
        if f is None:
            if r.kind == "arg":
                s.bad("footprint", "%s of undeclared memory %s[%r]" % (mode, r, off), inst)
            elif r.kind == "global" and mode == "w":
                fn = ip.stack[-1] if ip.stack else None
                static = r.info and r.info[0] is not None and "internal" in r.info[0].linkage
                if r.const or not static:
                    s.bad("global", "write to global %s" % r, inst)
            return
        m = f.get(off)
        if m is None:
            s.bad("footprint", "%s outside the operand: %s[%r]" % ({"r": "read", "w": "write"}[mode], r, off), inst)
        elif mode not in m:
            s.bad("footprint", "%s not allowed: %s[%r]" % ({"r": "read", "w": "write"}[mode], r, off), inst)

    def on_load(s, ip, st, ptr, ty, inst):
        s.check(ptr.r, ptr.o, "r", inst, ip)

    def on_store(s, ip, st, ptr, val, ty, inst):
        if ptr.r.kind == "arg" and val is UNDEF:
            s.bad("undef", "uninitialised value stored to %s[%r]" % (ptr.r, ptr.o), inst)
        s.check(ptr.r, ptr.o, "w", inst, ip)
        if ptr.r.kind == "heap" and ptr.o.is_const() and ptr.r.size is not None:
            if ptr.o.cval() < 0 or ptr.o.cval() + ty.size() > ptr.r.size:
                s.bad("bounds", "write beyond allocated %s bytes at %r" % (ptr.r.size, ptr.o), inst)

    def undef_use(s, st, inst):
        s.bad("undef", "branch on an uninitialised value", inst)

    def on_memset(s, ip, st, p, v, n, it):
        if not (isinstance(v, Poly) and v.is_const() and v.cval() == 0 and n.is_const() and p.o.is_const()):
            s.bad("undef", "memset with non-zero value or unknown size %r" % (n,), it)
            return
        n = int(n.cval())
        es = s.P.es
        for i in range(0, n, es):
            o = p.o + i
            s.check(p.r, o, "w", it, ip)
            st.wmem(p.r)[o] = (F(ZERO, prec=s.P.k), es)
        if n % es:
            s.bad("bounds", "memset of a partial cell", it)

    def on_memcpy(s, ip, st, d, sr, n, it):
        if not (n.is_const() and isinstance(d, Ptr) and isinstance(sr, Ptr)):
            s.bad("undef", "memcpy of unknown size", it)
            return
        n = int(n.cval())
        es = s.P.es
        vals = []
        for i in range(0, n, es):
            s.check(sr.r, sr.o + i, "r", it, ip)
            e = st.mem.get(sr.r, {}).get(sr.o + i)
            vals.append(e[0] if e else UNDEF)
        for i, v in enumerate(vals):
            s.check(d.r, d.o + es * i, "w", it, ip)
            st.wmem(d.r)[d.o + es * i] = (v, es)

    def call(s, ip, st, name, args, inst):
        if name == "malloc" or name == "calloc":
            n = ip.toint(args[0])
            if name == "calloc":
                n = n * ip.toint(args[1])
            r = Region("heap%d" % len(s.allocs), "heap", size=int(n.cval()) if n.is_const() else None)
            s.allocs.append((r, n, inst))
            st.mem[r] = {}
            st.own.add(r)
            if name == "calloc" and n.is_const():
                for i in range(0, int(n.cval()), s.P.es):
                    st.mem[r][Poly.const(i)] = (F(ZERO, prec=s.P.k), s.P.es)
            return Ptr(r, ZERO)
        if name == "free":
            s.freed.append((args[0].r if isinstance(args[0], Ptr) else None, inst))
            if isinstance(args[0], Ptr):
                g = dict(st.ghost.freed) if st.ghost else None
                if st.ghost is not None:
                    st.ghost.freed[args[0].r] = st.ghost.freed.get(args[0].r, 0) + 1
            return None
        return NotImplemented

    def null_cond(s, st, p):
        return False

    def fop(s, ip, st, op, a, b, inst):
        if op == "fadd":                 # zero with its low bit forced is the smallest subnormal
            if a.p.is_const() and abs(a.p.cval()) == s.P.denorm:
                a = F(ZERO, True, a.prec)
            if b.p.is_const() and abs(b.p.cval()) == s.P.denorm:
                b = F(ZERO, True, b.prec)
        if op in ("fadd", "fsub") and (a.odd or b.odd):
            if op == "fadd":
                if a.odd and not b.odd:
                    a, b = b, a
                if not a.odd:
                    R = s.rnd(ip, a.p, b.p, a.prec)
                    return F(a.p + R, False, a.prec)
            return F(Poly.atom(ip.opaque("oddarith", op, a, b)), prec=a.prec)
        if op == "fmul":
            r = ip.fdefault(st, op, a, b)
            if isinstance(r, F) and r.rng and s.check_overflow:
                if max(abs(r.rng[0]), abs(r.rng[1])) >= TWO ** (1024 if a.prec == "d" else 128):
                    s.bad("overflow", "intermediate product can overflow", inst)
            return r
        if op == "fdiv":
            ca, cb = fclass(a), fclass(b)
            if b.p.is_const() and b.p.cval() and frange(a):
                lo, hi = frange(a)
                c = abs(Fraction(1) / b.p.cval())
                m = max(abs(lo), abs(hi)) * c
                if m <= s.P.denorm / 2:
                    return F(ZERO, prec=a.prec)
                if m < TWO ** (s.P.minexp - 1):      # below the normal range: rounded to the smallest unit
                    r = ip.fdefault(st, op, a, b)
                    return F(r.p, False, r.prec, r.rng, True)
        return NotImplemented

    def rnd(s, ip, acc, x, prec):
        # adding with the low bit forced rounds x to the accumulator's grid: off by at most one grid step
        xr, ca = frange(F(x)), fclass(F(acc))
        g = ca[1] - (s.P.mant - 1) if ca and ca[0] == "norm" else None
        rng = None
        if xr and g is not None and max(abs(xr[0]), abs(xr[1])) < TWO ** (g + s.P.mant - 1):
            rng = (xr[0] - TWO ** g, xr[1] + TWO ** g)
        else:
            g = None
        return Poly.atom(ip.opaque("R", acc, x, name="R[%r;%r]" % (acc, x), rng=rng, g=g, info=("R", acc, x)))

    def key(s, st, b):
        return ()


class Ghost:
    def __init__(s):
        s.freed = {}
        s.flags = set()

    def copy(s):
        g = Ghost()
        g.freed = dict(s.freed)
        g.flags = set(s.flags)
        return g


class Result:
    """one obligation"""
    __slots__ = ("tags", "fn", "part", "what", "ok", "detail")

    def __init__(s, tags, fn, part, what, ok, detail=""):
        s.tags, s.fn, s.part, s.what, s.ok, s.detail = tags, fn, part, what, ok, detail


class Runner:
    """runs one partition of one function"""

    def __init__(s, prog, P, fn, part, tags):
        s.prog, s.P, s.fn, s.part, s.tags = prog, P, fn, part, set(tags)
        s.client = SmallClient(P)
        s.results = []
        s.accs = []

    def ob(s, what, ok, detail="", tags=None):
        s.results.append(Result(frozenset(tags or s.tags), s.fn, s.part, what, bool(ok), "" if ok else str(detail)[:400]))

    def acc(s, name, comps, fold, states, manual, mode, window="norm", caraccess=True, extra=None):
        """declare an accumulator operand; mode 'r' or 'rw'"""
        a = Acc(name, s.P, comps, fold, states, manual, window)
        if extra is not None:
            a.extra = extra
        a.mode = mode
        s.accs.append(a)
        return a

    def declare(s, ip, st, a, caraccess=True):
        for kind, j, c, r, o in a.cells():
            f = s.client.foot.setdefault(r, {})
            if kind == "c" and not caraccess:
                continue
            f[o] = f.get(o, "") + a.mode
            v = a.val(ip, kind, j, c)
            st.wmem(r)[o] = (v, s.P.es)
            s.client.values[(r, o)] = v

    def scalar_region(s, ip, st, name, vals, mode="r", init=True):
        r = Region(name, "arg")
        f = s.client.foot.setdefault(r, {})
        for c, v in enumerate(vals):
            o = Poly.const(s.P.es * c)
            f[o] = mode
            if init:
                st.wmem(r)[o] = (v, s.P.es)
        return r

    def run(s, build, caraccess=True):
        """build(ip, st) -> args ; returns list of (state, ret)"""
        cl = s.client

        def state(ip, st):
            st.ghost = Ghost()
            for a in s.accs:
                s.declare(ip, st, a, caraccess if isinstance(caraccess, bool) else caraccess(a))
            return build(ip, st)
        try:
            s.ip, outs = analyse(s.prog, cl, s.fn, None, state)
        except AnalysisBroken as e:
            s.ob("analysable", False, "cannot interpret: %s" % e)
            return None
        for kind, msg, line in cl.viol:
            tags = {"footprint": s.tags | {"P14", "P17"}, "undef": s.tags | {"P15"}, "bounds": s.tags | {"P15"},
                    "global": s.tags | {"P18"}, "overflow": s.tags}[kind]
            s.ob(kind, False, "%s (line %s)" % (msg, line), tags)
        if not any(v[0] == "footprint" for v in cl.viol):
            s.ob("footprint", True, tags=s.tags | {"P14", "P17"})
        if not outs:
            s.ob("returns", False, "no path returns")
            return None
        for st, r in outs:
            for reg, n, inst in cl.allocs:
                if reg in st.mem:
                    k = st.ghost.freed.get(reg, 0)
                    ret = isinstance(r, Ptr) and r.r is reg
                    s.ob("released", k == (0 if ret else 1), "allocation at line %s freed %d times on a path" % (inst.line, k), {"P15"})
        return outs

    def cell(s, st, r, o):
        e = st.mem.get(r, {}).get(o)
        return e[0] if e else None

    def show(s, v):
        return repr(v)[:160]

    def expect(s, st, a, kind, j, c, want, what=None, tags=None):
        r, o = a.pri(j, c) if kind == "p" else a.car(j, c)
        got = s.cell(st, r, o)
        ok = isinstance(got, F) and (got == want or isF0(got) and isF0(want))
        s.ob(what or "%s cell %d%s" % ({"p": "primary", "c": "carry"}[kind], j, "ri"[c] if a.comps > 1 else ""), ok,
             "got %s, specified %s" % (s.show(got), s.show(want)), tags)
        return ok

    def unchanged(s, st, a, comps=None, tags=None):
        for c in range(a.comps):
            if comps is not None and c not in comps:
                continue
            for j in range(a.fold):
                for kind in "pc":
                    s.expect(st, a, kind, j, c, a.val(s.ip, kind, j, c), "unchanged %s%d" % (kind, j), tags)
