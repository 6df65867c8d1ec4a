"""Accumulation and maximum kernels (src/binnedBLAS): which element goes where, exactly once.

The kernels are interpreted abstractly for symbolic N and stride.  An accumulator cell's current value is the atom P(c,l)
(component, level); a deposit of element k's term t into it adds the atom R(c,l,t,k), legal only when the added value is,
as a value form, exactly what the previous levels left of the term with its lowest bit forced.  A loop invariant is built
at every merge: the slots (vector lanes, buffers, cells) that hold P(c,l)+contributions together hold every element of
[0,kappa) exactly once; kappa is an integer ghost symbol related to the program's own counters by the affine domain.
"""
from fractions import Fraction
import re
from poly import Poly, Atom, ZERO, ONE
from absint import (F, Ptr, Region, Cond, UNDEF, Client, AnalysisBroken, analyse, fclass, frange, Interp, CInt, Bits, Grp,
                    State, clsin)
from small import PREC, REALOF, COMPS, TWO, Result

ENDURANCE = {"d": 1 << (53 - 40 - 2), "s": 1 << (24 - 13 - 2)}
ALL = frozenset(("fin", "inf", "nan"))


DEBUG = False


class Stop(Exception):
    """the partition is decided: a violation was found"""


def classes(names):
    s = set()
    if "nan" in names:
        s.add("nan")
    if "inf" in names:
        s.add("inf")
    if "norm" in names or "zero" in names:
        s.add("fin")
    return frozenset(s)


class Cfg:
    """what one kernel function must do"""

    def __init__(s, fn, T, op, conj=False):
        s.fn, s.T, s.op, s.conj = fn, T, op, conj
        s.r = REALOF[T]
        s.P = PREC[s.r]
        s.cv = COMPS[T]
        s.nvec = 2 if op in ("dot", "maxm") else 1
        s.temp = op in ("asum", "ssq") and s.cv == 2       # deposits go to a complex temporary
        s.C = s.cv                                          # components of the deposit accumulator
        s.OC = 1 if op in ("asum", "ssq") else s.cv         # components of the result
        s.sign = op in ("asum", "ssq")                      # terms cannot be negative
        s.weight = 2 if op == "dot" and s.cv == 2 else 1
        s.scaled = op == "ssq"
        s.ismax = op in ("max", "maxm")
        if op in ("dot", "maxm") and s.cv == 2:
            cj = -1 if conj else 1
            s.terms = [[(1, (0, 0), (1, 0)), (-cj, (0, 1), (1, 1))], [(1, (0, 0), (1, 1)), (cj, (0, 1), (1, 0))]]
        elif op in ("dot", "maxm"):
            s.terms = [[(1, (0, 0), (1, 0))]]
        else:
            s.terms = [[(1, (0, c))] for c in range(s.cv)]
        # heads that absorb exceptional values, with the (component, term) pairs each must see
        if s.temp:
            s.heads = [[(c, 0) for c in range(s.C)]]
        else:
            s.heads = [[(c, t) for t in range(len(s.terms[c]))] for c in range(s.C)]


class Ghost:
    __slots__ = ("kap", "kr", "ke", "am", "amf", "amcls", "cov", "idx0", "hcls", "pend", "G", "pendE", "fact", "due", "sc",
                 "scok", "cmp", "merged", "freed", "csr", "inited", "ret", "odirty", "dom", "allf")

    def __init__(s, C, H):
        s.kap = s.kr = ZERO
        s.ke = [ZERO] * H
        s.am = None
        s.amf = [None] * C
        s.amcls = ["fin"] * C
        s.cov = [False] * C
        s.idx0 = [None] * C
        s.hcls = ["fin"] * H
        s.pend = {}
        s.G = {}
        s.pendE = [frozenset()] * H
        s.fact = {}
        s.due = frozenset()
        s.sc = None
        s.scok = True
        s.cmp = frozenset()
        s.merged = ()
        s.freed = {}
        s.csr = None
        s.inited = frozenset()
        s.ret = None
        s.odirty = False
        s.dom = frozenset()
        s.allf = [True] * H

    def copy(s):
        n = Ghost.__new__(Ghost)
        for k in Ghost.__slots__:
            v = getattr(s, k)
            setattr(n, k, v.copy() if isinstance(v, (dict, list)) else v)
        return n


class Kern(Client):
    no_merge_outs = True
    pair_templates = True
    subst_eq = True
    lazy_select = True

    def __init__(s, cfg, fold, incs, world="fin"):
        """incs: per vector 1 or None (symbolic, different from 1); world: 'fin' or 'exc' (NaN and infinity considered)"""
        s.cfg, s.fold, s.incs, s.world = cfg, fold, incs, world
        s.P = cfg.P
        s.es = cfg.P.es
        s.viol = []
        s.stats = {"deposits": 0, "loads": 0, "absorb": 0, "events": 0}
        s.roots = set()
        s.N = Atom("N")
        s.roots.add(s.N)
        s.incv = []
        for i in range(cfg.nvec):
            a = Atom("inc%s" % "XY"[i], nz=True)
            s.roots.add(a)
            s.incv.append(ONE if incs[i] == 1 else Poly.atom(a))
        s.vecs = [Region("XY"[i], "vec") for i in range(cfg.nvec)]
        s.pri, s.car = Region("pri", "arg"), Region("car", "arg")
        s.ip_, s.ic_ = Atom("incpri", nz=True), Atom("inccar", nz=True)
        s.roots |= {s.ip_, s.ic_}
        s.out = Region("out", "arg")
        s.heap = None
        s.subcache = {}
        s.termcache = {}
        s._hdrname = ''
        s.cur = None

    def reset(s):
        s.viol = []
        s.heap = None

    # ------------------------------------------------------------ reporting
    def fail(s, tags, msg, inst=None, stop=True):
        e = (frozenset(tags.split()), msg, getattr(inst, "line", None), s.ip.stack[-1].name if s.ip.stack else s.cfg.fn)
        if e not in s.viol:
            s.viol.append(e)
        if DEBUG and s.cur is not None:
            for k, v in s.cur.cons.items():
                print("      cons", k, v)
            g = s.cur.ghost
            print("      kap", g.kap, "kr", g.kr, "am", g.am, "ke", g.ke, "G", g.G, "pend", g.pend, "hcls", g.hcls, "cov", g.cov, "idx0", g.idx0)
            for n, v in s.cur.env.items():
                if isinstance(v, (Poly, Ptr)):
                    print("      env", n, v)
        if stop:
            raise Stop()

    # ------------------------------------------------------------ atoms
    def x(s, r, k, c):
        return Poly.atom(s.ip.opaque("x", r, k, c, name="%s[%r].%d" % ("XY"[r], k, c), info=("x", r, k, c)))

    def Pat(s, c, l):
        return s.ip.opaque("P", c, l, info=("P", c, l))

    def Rat(s, c, l, t, k):
        return s.ip.opaque("KR", c, l, t, k, info=("KR", c, l, t, k))

    def term(s, g, c, t, k):
        """value form of term t of component c of element k"""
        key = (c, t, k, g.sc)
        r = s.termcache.get(key)
        if r is not None:
            return r
        spec = s.cfg.terms[c][t]
        p = Poly.const(spec[0])
        for r, comp in spec[1:]:
            p = p * s.x(r, k, comp)
        if s.cfg.op in ("asum", "max", "maxm"):
            p = s.ip.abs_poly(p)
        elif s.cfg.op == "ssq":
            d = g.sc if g.sc is not None else ONE
            q = s.ip.fdefault(None, "fdiv", F(p), F(d)).p
            p = q * q
        s.termcache[key] = p
        return p

    def eterm(s, c, t, k):
        """term as added to an exceptional head"""
        spec = s.cfg.terms[c][t]
        p = Poly.const(spec[0])
        for r, comp in spec[1:]:
            p = p * s.x(r, k, comp)
        return s.ip.abs_poly(p) if s.cfg.sign else p

    def xatoms(s, p, out=None):
        """indices k of the vector elements a form mentions"""
        out = [] if out is None else out
        for a in p.atoms():
            if a.info:
                if a.info[0] == "x":
                    if a.info[2] not in out:
                        out.append(a.info[2])
                elif a.info[0] == "abs":
                    s.xatoms(a.info[1], out)
        return out

    # ------------------------------------------------------------ substitution of integer symbols inside atoms
    def subst_atom(s, at, a, m):
        i = at.info
        if not i:
            return at
        if i[0] == "x":
            k = m(i[2]) if callable(m) else i[2].subst(m)
            return at if k is i[2] else s.x(i[1], k, i[3]).single()
        if i[0] == "KR":
            k = m(i[4]) if callable(m) else i[4].subst(m)
            return at if k is i[4] else s.Rat(i[1], i[2], i[3], k)
        if i[0] == "abs":
            q = s.subst_form(i[1], a, m)
            return at if q is i[1] else s.ip.abs_poly(q).single()
        if i[0] == "max":
            it = frozenset(s.subst_form(q, a, m) for q in i[1])
            return at if it == i[1] else s.maxatom(it)
        return at

    def subst_form(s, p, a, m):
        ch = {}
        for at in p.atoms():
            n = s.subst_atom(at, a, m)
            if n is not at:
                ch[at] = Poly.atom(n)
        return p.subst(ch) if ch else p

    def subst_ghost(s, st, a, m):
        g = st.ghost
        f = lambda p: p.subst(m) if p is not None else None
        g.kap, g.kr = f(g.kap), f(g.kr)
        g.ke = [f(x) for x in g.ke]
        if g.am:
            g.am = (f(g.am[0]), f(g.am[1]))
        g.pend = {k: tuple(f(x) for x in v) for k, v in g.pend.items()}
        g.pendE = [frozenset((c, t, f(k)) for c, t, k in v) for v in g.pendE]
        g.due = frozenset((h, c, t, f(k)) for h, c, t, k in g.due)
        g.fact = {s.subst_form(k, a, m): v for k, v in g.fact.items()}

    # ------------------------------------------------------------ entry
    def entry(s, ip, st):
        s.ip = ip
        c = s.cfg
        g = st.ghost = Ghost(c.C, len(c.heads))
        N = Poly.atom(s.N)
        args = []
        if not c.ismax:
            args.append(Poly.const(s.fold))
        args.append(N)
        for i in range(c.nvec):
            args += [Ptr(s.vecs[i], ZERO), s.incv[i]]
            if not s.incv[i].is_const():
                st.ne = st.ne | {(s.incv[i] - 1)}
        if c.ismax:
            if c.cv == 2:
                args.append(Ptr(s.out, ZERO))
            return args
        if c.scaled:
            a = ip.opaque("scaleY", rng=(0, TWO ** (c.P.maxexp + 1)))
            args.append(F(Poly.atom(a), prec=c.P.k))
            s.scaleY = Poly.atom(a)
            g.sc = ZERO if c.temp else Poly.atom(a)
        args += [Ptr(s.pri, ZERO), Poly.atom(s.ip_), Ptr(s.car, ZERO), Poly.atom(s.ic_)]
        return args

    # ------------------------------------------------------------ cells of the deposit and result accumulators
    def cell(s, r, o):
        """(accumulator 'D'/'O', component, level) addressed, or None"""
        c = s.cfg
        if r is s.pri:
            n = c.OC
            for l in range(s.fold):
                for k in range(n):
                    if o == Poly.atom(s.ip_).scale(s.es * n * l) + s.es * k:
                        return ("O" if c.temp else "D", k, l)
            return None
        if r is s.heap and o.is_const():
            q = int(o.cval())
            if q % s.es == 0 and 0 <= q < s.es * c.C * s.fold:
                q //= s.es
                return ("D", q % c.C, q // c.C)
        return None

    def Dcells(s):
        c = s.cfg
        for k in range(c.C):
            for l in range(s.fold):
                if c.temp:
                    yield k, l, s.heap, Poly.const(s.es * (c.C * l + k))
                else:
                    yield k, l, s.pri, Poly.atom(s.ip_).scale(s.es * c.C * l) + s.es * k

    def head0(s, h):
        """initial form of an exceptional head"""
        if s.cfg.temp:
            return Poly.atom(s.ip.opaque("OH", info=("OH", 0)))
        return Poly.atom(s.Pat(h, 0))

    def headcell(s, h):
        return s.pri, Poly.const(s.es * h)

    def spec_atom(s, kind, h):
        cls = {"EXC": ("nonfin",), "INF": ("inf", None), "NAN": ("nan",), "MX": None, "JUNK": None}[kind]
        return s.ip.opaque(kind, h, info=(kind, h), cls=cls)

    def getcell(s, st, r, o):
        e = st.mem.get(r, {}).get(o)
        if e is None:
            v = s.initcell(st, r, o)
            st.wmem(r)[o] = (v, s.es)
            return v
        return e[0]

    def initcell(s, st, r, o):
        w = s.cell(r, o)
        if w is None:
            return None
        if w[0] == "O":
            return F(s.head0(0), prec=s.P.k) if w[2] == 0 else None
        return F(Poly.atom(s.Pat(w[1], w[2])), prec=s.P.k)

    def setcell(s, st, r, o, p):
        st.wmem(r)[o] = (F(p, prec=s.P.k), s.es)

    def init_load(s, st, r, off, ty, inst):
        if r is s.heap and r is not None and r not in st.ghost.inited:
            s.fail("P15 P01", "temporary accumulator read before it is initialised", inst)
        v = s.initcell(st, r, off)
        return v

    def on_load(s, ip, st, ptr, ty, inst):
        r, o = ptr.r, ptr.o
        if r.kind == "arg" or r is s.heap:
            if r is s.out:
                return
            if s.cell(r, o) is None:
                s.fail("P14 P17 P15", "reads accumulator memory outside its primary cells: %s[%r]" % (r, o), inst)
            if s.cell(r, o)[0] == "O" and s.cell(r, o)[2] != 0:
                s.fail("P14 P17", "reads a level of the result accumulator directly: %s[%r]" % (r, o), inst)
        elif r.kind == "alloca":
            s.abound(r, o, ty, inst)

    def abound(s, r, o, ty, inst):
        n = r.size
        if o.is_const():
            if not 0 <= o.cval() <= n - ty.size():
                s.fail("P15 P14", "access outside the local buffer %s: byte %s of %s" % (r.name, o.cval(), n), inst)
        else:
            raise AnalysisBroken("symbolic local buffer index")

    def on_store(s, ip, st, ptr, val, ty, inst):
        r, o = ptr.r, ptr.o
        if r.kind == "vec":
            s.fail("P14", "writes to input vector %s" % r, inst)
        if r.kind == "global":
            s.fail("P18 P14", "writes to global %s" % r, inst)
        if r.kind == "alloca":
            s.abound(r, o, ty, inst)
            return
        if r.kind == "arg" or r is s.heap:
            if r is s.out:
                if not (o.is_const() and o.cval() in [s.es * i for i in range(s.cfg.cv)]) or ty.size() != s.es:
                    s.fail("P14", "writes outside the result: byte %r" % o, inst)
                return
            w = s.cell(r, o)
            if w is None or w[0] == "O" and w[2] != 0:
                s.fail("P14 P17", "writes accumulator memory other than its primary cells: %s[%r]" % (r, o), inst)
            if val is UNDEF:
                s.fail("P15 P01", "uninitialised value stored to an accumulator", inst)
            if w[2] == 0 and isinstance(val, F):
                a = val.p.single()
                h = w[1]
                if a is not None and a.info and a.info[0] in ("EXC", "INF", "NAN", "MX") and (not s.cfg.temp or w[0] == "O"):
                    if a.info[1] != h:
                        s.fail("P10 P11", "component %d receives component %d's exceptional value" % (h, a.info[1]), inst)
                    st.ghost.hcls[h] = {"EXC": "exc", "INF": "inf", "NAN": "nan", "MX": "may"}[a.info[0]]

    def undef_use(s, st, inst):
        s.fail("P15", "branch on an uninitialised value", inst)

    # ------------------------------------------------------------ vector loads
    def vec_load(s, ip, st, ptr, ty, inst):
        s.cur = st
        n = ty.size()
        if n == 2 * s.es and s.es == 4:
            from absint import FLT
            return Grp(tuple(s.elem(st, ptr.r, ptr.o + 4 * i, inst) for i in range(2)), FLT)
        if n != s.es:
            s.fail("P01 P14", "vector element read with the wrong width (%d bytes)" % n, inst)
        v = s.elem(st, ptr.r, ptr.o, inst)
        if ty.k == "i":
            return ip.f_bits(v, ty.n)
        return v

    def elem(s, st, r, o, inst):
        i = s.vecs.index(r)
        cv, es = s.cfg.cv, s.es
        inc = s.incv[i]
        s.stats["loads"] += 1
        key = (i, o)
        kc = s.subcache.get(key)
        if kc is None:
            kc = s.subcache[key] = s.locate(i, o)
        if kc[0] is None:
            s.fail("P01 P04 P14", "%s is read at byte offset %r, which is no element's position" % (r, o), inst)
        k, comp = kc
        N = Poly.atom(s.N)
        lo, _ = st.bounds(k)
        hi, _ = st.bounds(N - 1 - k)
        if lo is None or lo < 0:
            s.fail("P01 P04 P14", "reads before the vector: element %r of %s" % (k, r), inst)
        if hi is None or hi < 0:
            s.fail("P01 P04 P14", "reads beyond the vector: element %r of %s is not below N" % (k, r), inst)
        return F(s.x(i, k, comp), prec=s.P.k)

    def locate(s, i, o):
        cv, es, inc = s.cfg.cv, s.es, s.incv[i]
        if inc.is_const():
            q = {}
            cst = 0
            for m, v in o.d.items():
                if not m:
                    cst = v
                    continue
                if not isinstance(v, int) or v % (es * cv):
                    return None, None
                q[m] = v // (es * cv)
            if not isinstance(cst, int) or cst % es:
                return None, None
            comp = (cst // es) % cv
            kk = (cst // es - comp) // cv
            return Poly(q) + kk, comp
        ia = inc.single()
        q = {}
        comp = 0
        for m, v in o.d.items():
            if not isinstance(v, int):
                return None, None
            if m.count(ia) == 1:
                if v % (es * cv):
                    return None, None
                mm = list(m)
                mm.remove(ia)
                q[tuple(mm)] = v // (es * cv)
            elif not m and v % es == 0 and 0 <= v // es < cv:
                comp = v // es
            else:
                return None, None
        return Poly(q), comp

    # ------------------------------------------------------------ slots
    def parse(s, p):
        """(c, l, delta) of an accumulator slot form, else None"""
        c = l = None
        d = {}
        for m, v in p.d.items():
            if len(m) != 1 or not m[0].info:
                return None
            i = m[0].info
            if i[0] == "P":
                if c is not None and (c, l) != (i[1], i[2]) or v != 1 or getattr(s, "_seenP", None) == 1:
                    return None
                c, l = i[1], i[2]
                continue
            if i[0] not in ("D", "KR"):
                return None
            d[m] = v
        if c is None:
            return None
        for m in d:
            if m[0].info[1] != c or m[0].info[2] != l:
                return None
        return c, l, Poly(d)

    def touches(s, p):
        return any(a.info and a.info[0] in ("P", "D", "KR") for a in p.atoms())

    def positions(s, st):
        """(position, value) of every float the state holds"""
        for n in sorted(st.env):
            v = st.env[n]
            if isinstance(v, F):
                yield ("e", n), v
            elif isinstance(v, tuple):
                for i, w in enumerate(v):
                    if isinstance(w, F):
                        yield ("e", n, i), w
        for r in sorted(st.mem, key=lambda r: r.seq):
            if r.kind in ("alloca", "heap", "arg"):
                for o, (v, sz) in st.mem[r].items():
                    if isinstance(v, F):
                        yield ("m", r, o), v

    def setpos(s, st, pos, p):
        if pos[0] == "e":
            v = st.env[pos[1]]
            if len(pos) == 2:
                st.env[pos[1]] = F(p, False, v.prec)
            else:
                l = list(v)
                l[pos[2]] = F(p, False, v[pos[2]].prec)
                st.env[pos[1]] = tuple(l)
        else:
            m = st.wmem(pos[1])
            v, sz = m[pos[2]]
            m[pos[2]] = (F(p, False, v.prec), sz)

    def mapforms(s, st, fn, skip=()):
        for pos, v in list(s.positions(st)):
            if pos[0] == "m" and pos[1] in skip:
                continue
            q = fn(pos, v.p)
            if q is not None and q is not v.p:
                s.setpos(st, pos, q)

    def finite(s, g, c):
        if s.cfg.temp:
            return g.hcls[0] in ("fin", "may") and True
        return g.hcls[c] in ("fin",)

    def want(s, g, c, l):
        """everything slots (c,l) have to account for"""
        p = ZERO
        for a in g.G.get((c, l), ()):
            p = p + Poly.atom(a)
        for (cc, ll, t), ks in g.pend.items():
            if (cc, ll) == (c, l):
                for k in ks:
                    p = p + Poly.atom(s.Rat(c, l, t, k))
        return p

    def comps(s, g):
        return [c for c in range(s.cfg.C) if s.finite(g, c)]

    def dirty(s, g):
        return any(g.G.values()) or any(g.pend.values())

    def advance(s, st, inst=None):
        """the pending elements are the next ones: move kappa past them"""
        g = st.ghost
        cs = s.comps(g)
        m = None
        any_ = False
        for c in cs:
            for t in range(len(s.cfg.terms[c])):
                for l in range(s.fold):
                    ks = g.pend.get((c, l, t), ())
                    any_ = any_ or bool(ks)
                    off = []
                    for k in ks:
                        d = k - g.kap
                        if not d.is_const():
                            s.fail("P01 P03", "element %r is deposited while elements up to %r have been" % (k, g.kap), inst)
                        off.append(int(d.cval()))
                    off.sort()
                    if l == 0:
                        first = off
                    if off != list(range(len(off))):
                        s.fail("P01 P02" if off != first else "P01", "component %d level %d term %d: elements deposited between two merges are %s past the "
                               "last one instead of 0..%d" % (c, l, t, off, len(off) - 1), inst)
                    if m is None:
                        m = len(off)
                    elif m != len(off):
                        s.fail("P01 P02", "component %d level %d term %d receives %d elements where others receive %d" % (
                            c, l, t, len(off), m), inst)
        g.pend = {}
        if not any_:
            return
        for c in cs:
            if not g.cov[c] or g.am is None:
                s.fail("P03", "component %d is deposited to without having been updated with a bound of these elements" % c, inst)
            lo, n = g.am
            if (st.bounds(g.kap - lo)[0] or 0) < 0 or st.bounds(g.kap - lo)[0] is None or \
                    (st.bounds(lo + n - g.kap - m)[0] is None or st.bounds(lo + n - g.kap - m)[0] < 0):
                s.fail("P03 P04", "elements up to %r are deposited but the bound covers [%r, %r)" % (g.kap + m, lo, lo + n), inst)
            if g.amcls[c] == "inf":
                s.fail("P10", "a block with an infinite bound is deposited into a finite accumulator", inst)
        hi = st.bounds(g.kap + m - g.kr)[1]
        if hi is None or hi * s.cfg.weight > ENDURANCE[s.cfg.r]:
            s.fail("P03", "up to %s deposits per slot between renormalisations (endurance %d)" % (
                "unbounded" if hi is None else hi * s.cfg.weight, ENDURANCE[s.cfg.r]), inst)
        g.kap = g.kap + m

    def block_end(s, st):
        g = st.ghost
        if g.am is None:
            return False
        lo, n = g.am
        d = g.kap - lo - n
        if d.d and st.bounds(d) != (0, 0):
            return False
        return True

    def coarsen(s, st):
        """forget whether exceptional heads are infinite or NaN (the next test of them tells again)"""
        g = st.ghost
        if all(cl == "nan" for cl in g.hcls):
            return
        for h, cl in enumerate(g.hcls):
            if cl in ("inf", "nan") and s.cfg.C == 2 and not s.cfg.temp:
                if g.am is not None:
                    if any(g.pendE) and s.whole(st):
                        s.examined(st)
                    if cl == "inf" and not s.complete(st, h):
                        s.fail("P10", "component %d is infinite but its elements of the block are not all examined" % h)
                    g.ke[h] = g.am[0] + g.am[1]
                    g.pendE[h] = frozenset()
                    g.due = frozenset(d for d in g.due if d[0] != h)
                olds = [Poly.atom(s.spec_atom(o, h)) for o in ("INF", "NAN")]
                n = Poly.atom(s.spec_atom("EXC", h))
                s.mapforms(st, lambda pos, p: n if p in olds else None)
                g.hcls[h] = "exc"

    def close(s, st):
        """kappa has passed the block the bound was taken of"""
        g = st.ghost
        for h, cl in enumerate(g.hcls):
            if cl in ("inf", "exc") and not s.complete(st, h):
                s.fail("P10", "component %d is infinite but its elements of the block are not all examined" % h)
        g.am = None
        g.amcls = ["fin"] * s.cfg.C
        g.idx0 = [None] * s.cfg.C
        g.cov = [False] * s.cfg.C
        g.ke = [ZERO] * len(g.ke)
        g.pendE = [frozenset()] * len(g.ke)
        g.fact = {}

    def before_merge(s, ip, st, block):
        g = st.ghost
        if s.cfg.ismax:
            return
        if any(g.pendE) and s.whole(st):
            s.examined(st)
        for h, cl in enumerate(g.hcls):
            if cl == "nan":
                r, o = s.headcell(h)
                v = s.getcell(st, r, o)
                if isinstance(v, F) and v.p.single() is not None and v.p.single().info and v.p.single().info[0] == "JUNK":
                    s.setcell(st, r, o, Poly.atom(s.spec_atom("NAN", h)))
        if g.am is None and g.kap.d and block is not None and block.name in ip.stack[-1].loops:
            s.coarsen(st)
        if s.dirty(g):
            s.rebase(st)
        if g.am is not None and g.kap == g.am[0] and all(c in ("inf", "nan") for c in g.hcls) and not s.dirty(g):
            if all(c == "nan" or s.complete(st, h) for h, c in enumerate(g.hcls)):
                g.kap = g.am[0] + g.am[1]
                s.close(st)

    def rebase(s, st):
        """if the accumulator's own cells account for everything, they become the new base values"""
        g = st.ghost
        cs = s.comps(g)
        ch = False
        for c, l, r, o in s.Dcells():
            if c not in cs:
                continue
            e = st.mem.get(r, {}).get(o)
            if e is None or not isinstance(e[0], F) or e[0].odd:
                return False
            q = s.parse(e[0].p)
            if q is None or q[:2] != (c, l) or q[2] != s.want(g, c, l):
                return False
            ch = ch or bool(q[2].d)
        if not ch:
            return False
        s.advance(st)
        for c, l, r, o in s.Dcells():
            if c in cs:
                s.setcell(st, r, o, Poly.atom(s.Pat(c, l)))
        g.G = {}
        s.scrub(st)
        if s.block_end(st):
            s.close(st)
        return True

    def scrub(s, st, keep=False):
        """values read from the accumulator earlier no longer describe it"""
        stale = lambda: Poly.atom(s.ip.opaque("stale", info=("stale",)))
        cells = {(r, o) for _, _, r, o in s.Dcells()}

        def f(pos, p):
            if pos[0] == "m" and (pos[1], pos[2]) in cells:
                return None
            return stale() if s.touches(p) else None
        s.mapforms(st, f)

    def settle(s, st, what, inst, tags="P03 P01"):
        """before an event that reads or rewrites the accumulator, it must hold everything deposited so far"""
        g = st.ghost
        if s.dirty(g):
            s.rebase(st)
        if s.dirty(g):
            s.fail(tags, "%s while deposited elements are held outside the accumulator" % what, inst)
        for c, l, r, o in s.Dcells():
            v = s.getcell(st, r, o)
            if s.finite(g, c) and (not isinstance(v, F) or v.p != Poly.atom(s.Pat(c, l))):
                s.fail("P01 P02 P14", "%s: component %d level %d holds %r" % (what, c, l, v), inst)
        for h, cl in enumerate(g.hcls):
            if cl in ("inf", "exc"):
                v = s.getcell(st, *s.headcell(h))
                a = isinstance(v, F) and v.p.single()
                if not a or not a.info or a.info[0] not in ("INF", "EXC"):
                    s.fail("P10", "%s: the infinite head of component %d has been lost: %r" % (what, h, v), inst)

    # ------------------------------------------------------------ absorbing contributions at merges
    def absorb(s, A, B, b, only=None):
        """rename contributions held by the same positions in A and B; True if something was renamed"""
        ga, gb = A.ghost, B.ghost
        pa, pb = dict(s.positions(A)), dict(s.positions(B))
        slots = []
        diff = False
        for pos in pa:
            if pos not in pb:
                continue
            u, v = pa[pos], pb[pos]
            qa, qb = s.parse(u.p), s.parse(v.p)
            if qa is None or qb is None or qa[:2] != qb[:2] or u.odd or v.odd:
                continue
            slots.append((pos, qa[0], qa[1], qa[2], qb[2]))
            diff = diff or qa[2] != qb[2]
        if not diff and ga.G == gb.G and ga.pend == gb.pend:
            return False
        s.stats["absorb"] += 1
        names = {}
        newG = {}
        cs = s.comps(ga)
        if cs != s.comps(gb):
            return False
        for c in cs:
            for l in range(s.fold):
                cl = {}
                for pos, cc, ll, da, db in slots:
                    if (cc, ll) == (c, l):
                        cl.setdefault((da, db), []).append(pos)
                use = [k for k in cl if k[0].d or k[1].d]
                ok, why = s.cover(use, s.want(ga, c, l), s.want(gb, c, l))
                if not ok:
                    s.fail("P01 P02", "component %d level %d at %s: contributions of elements are lost or counted twice: %s" % (
                        c, l, b.name if b else "exit", why))
                newG[(c, l)] = set()
                for k in use:
                    if k in ok:
                        pos = cl[k][0]
                        nm = ("D", c, l, b.name if b else "ret", pos[0], pos[1] if pos[0] == "e" else (pos[1].name, pos[2]), pos[2:] if pos[0] == "e" else ())
                        a = s.ip.opaque(*nm, name="D", info=("D", c, l))
                        names[k, c, l] = Poly.atom(s.Pat(c, l)) + Poly.atom(a)
                        newG[(c, l)].add(a)
                    else:
                        names[k, c, l] = Poly.atom(s.ip.opaque("stale", info=("stale",)))
        s.advance(A)
        s.advance(B)
        for pos, c, l, da, db in slots:
            p = names.get(((da, db), c, l))
            if p is not None:
                s.setpos(A, pos, p)
                s.setpos(B, pos, p)
        G = {k: frozenset(v) for k, v in newG.items()}
        ga.G, gb.G = dict(G), dict(G)
        return True

    def cover(s, use, wa, wb):
        """which classes of slots hold everything exactly once (others are superseded copies)"""
        def total(ks, i):
            p = ZERO
            for k in ks:
                p = p + k[i]
            return p
        if total(use, 0) == wa and total(use, 1) == wb:
            return set(use), ""
        # drop superseded copies: a slot whose contributions are all part of another slot's
        keep = []
        for k in use:
            sup = False
            for j in use:
                if j is not k and all(set(k[i].d.items()) <= set(j[i].d.items()) for i in (0, 1)) and j != k:
                    sup = True
            if not sup:
                keep.append(k)
        if total(keep, 0) == wa and total(keep, 1) == wb:
            return set(keep), ""
        return None, "held %r, expected %r" % (total(keep, 1), wb)

    def examined(s, st, tags="P10"):
        """exceptional-loop progress: the examined elements are the next ones"""
        g = st.ghost
        for h in range(len(g.ke)):
            if g.hcls[h] == "nan":
                g.pendE[h] = frozenset()
                g.due = frozenset(d for d in g.due if d[0] != h)
            if not g.pendE[h]:
                continue
            if any(d[0] == h for d in g.due):
                s.fail(tags, "a non-finite element is not added to the head of component %d" % h)
            per = {}
            for c, t, k in g.pendE[h]:
                per.setdefault((c, t), []).append(k + g.ke[h])
            need = s.cfg.heads[h]
            n = None
            for q in need:
                off = []
                for k in per.get(q, ()):
                    d = k - g.ke[h]
                    if not d.is_const():
                        s.fail(tags, "exceptional elements are not examined in order: %r after %r" % (k, g.ke[h]))
                    off.append(int(d.cval()))
                off.sort()
                if off != list(range(len(off))) or n is not None and n != len(off):
                    s.fail(tags, "component %d: elements skipped or repeated while collecting exceptional values (%s)" % (h, off))
                n = len(off)
            g.ke[h] = g.ke[h] + n
            g.pendE[h] = frozenset()
            g.fact = {k: v for k, v in g.fact.items() if not s.xatoms(k)}

    def complete(s, st, h):
        g = st.ghost
        if g.am is None:
            return True
        d = g.am[0] + g.am[1] - g.ke[h]
        return not d.d or st.bounds(d) == (0, 0)

    def due_inf(s, g, h):
        """the bound says that an infinite element of head h is in the block"""
        return g.am is not None and any(g.amcls[c] == "inf" for c in {c for c, t in s.cfg.heads[h]})

    def absurd(s, st, h):
        """the bound is infinite but every element of the block was found finite"""
        g = st.ghost
        if not s.due_inf(g, h) or not g.allf[h]:
            return False
        if any(g.pendE) and s.whole(st):
            s.examined(st)
        return not g.pendE[h] and s.complete(st, h)

    def pre_join(s, ip, A, B, b, hdr):
        if s.cfg.ismax:
            return s.mabsorb(A, B, b)
        ga, gb = A.ghost, B.ghost
        if hdr is not None or ga.pendE != gb.pendE:
            for X in (A, B):
                if s.cfg.heads and any(X.ghost.pendE):
                    if hdr is not None or s.whole(X):
                        s.examined(X)
        s.absorb(A, B, b)

    def whole(s, st):
        g = st.ghost
        for h, q in enumerate(g.pendE):
            if g.hcls[h] == "nan":
                continue
            n = {len([1 for x in q if x[:2] == w]) for w in s.cfg.heads[h]}
            if len(n) > 1:
                return False
        return True

    def pre_leq(s, ip, H, x, b):
        if s.cfg.ismax:
            return s.mleq(H, x, b)
        if any(x.ghost.pendE):
            s.examined(x)
        gh, gx = H.ghost, x.ghost
        if not any(gh.G.values()) and not s.dirty(gx):
            return
        ph, px = dict(s.positions(H)), dict(s.positions(x))
        cl = {}
        for pos, v in ph.items():
            q = s.parse(v.p)
            if q is None or pos not in px:
                continue
            q2 = s.parse(px[pos].p)
            if q2 is None or q2[:2] != q[:2] or px[pos].odd:
                return
            cl.setdefault((q[0], q[1], q[2]), []).append((pos, q2[2]))
        for (c, l, d), lst in cl.items():
            if len({e for _, e in lst}) > 1:
                return
            if len(d.d) > 1:
                return
            if not d.d and lst[0][1].d:
                return
        cs = s.comps(gh)
        if cs != s.comps(gx):
            return
        for c in cs:
            for l in range(s.fold):
                use = [k for k in cl if k[:2] == (c, l) and k[2].d]
                tot = ZERO
                for k in use:
                    tot = tot + cl[k][0][1]
                if tot != s.want(gx, c, l):
                    return
                if {next(iter(k[2].d))[0] for k in use} != set(gh.G.get((c, l), ())):
                    return
        s.advance(x)
        for (c, l, d), lst in cl.items():
            for pos, _ in lst:
                s.setpos(x, pos, ph[pos].p)
        gx.G = dict(gh.G)

    # ------------------------------------------------------------ interpreter hooks
    def ghosts(s, st):
        g = st.ghost
        out = [("kap", g.kap), ("kr", g.kr)]
        if not s.cfg.ismax:
            out += [("ke%d" % i, x) for i, x in enumerate(g.ke)]
            am = g.am or (ZERO, ZERO)
            out += [("amlo", am[0]), ("amn", am[1])]
        return out

    def set_ghosts(s, st, vals):
        g = st.ghost
        v = dict(vals)
        g.kap, g.kr = v["kap"], v["kr"]
        if not s.cfg.ismax:
            g.ke = [v["ke%d" % i] for i in range(len(g.ke))]
            if g.am is not None:
                g.am = (v["amlo"], v["amn"])

    def template_exprs(s, ip, A, B, J):
        out = []
        a, b, j = A.ghost, B.ghost, J.ghost
        for n, v in J.env.items():
            if isinstance(v, Poly) and not v.is_const() or isinstance(v, Poly) and n in A.env and A.env[n] != B.env[n]:
                x, y = A.env[n], B.env[n]
                if isinstance(x, Poly) and isinstance(y, Poly):
                    out.append((j.kap - j.kr + v, a.kap - a.kr + x, b.kap - b.kr + y))
                    out.append((j.kap + v - Poly.atom(s.N), a.kap + x - Poly.atom(s.N), b.kap + y - Poly.atom(s.N)))
        out.append((j.kap - Poly.atom(s.N), a.kap - Poly.atom(s.N), b.kap - Poly.atom(s.N)))
        if a.am and b.am and j.am:
            for q in ("kap",):
                out.append((j.am[0] + j.am[1] - j.kap, a.am[0] + a.am[1] - a.kap, b.am[0] + b.am[1] - b.kap))
                out.append((j.am[0] + j.am[1] - j.kr, a.am[0] + a.am[1] - a.kr, b.am[0] + b.am[1] - b.kr))
                out.append((j.am[0] + j.am[1] - Poly.atom(s.N), a.am[0] + a.am[1] - Poly.atom(s.N), b.am[0] + b.am[1] - Poly.atom(s.N)))
            for i in range(len(j.ke)):
                out.append((j.am[0] + j.am[1] - j.ke[i], a.am[0] + a.am[1] - a.ke[i], b.am[0] + b.am[1] - b.ke[i]))
        return [t for t in out if not t[0].is_const()]

    def join_ghost(s, ip, A, B, J, hdr):
        a, b, j = A.ghost, B.ghost, J.ghost
        if a.sc != b.sc:
            if s._hdrname or a.sc.d and b.sc.d:
                j.sc = J_sc(s, ip, a.sc, b.sc, s._hdrname)
            else:
                j.sc = a.sc if a.sc.d else b.sc        # nothing deposited yet: any scale fits
        s._hdrname = ""
        j.scok = s.sc_ok(a) and s.sc_ok(b) if s.cfg.scaled else True
        j.cmp = a.cmp & b.cmp
        j.fact = {k: v | b.fact[k] for k, v in a.fact.items() if k in b.fact}
        j.due = a.due | b.due
        j.dom = a.dom & b.dom
        if a.pend != b.pend or a.G != b.G:
            s.fail("P01 P02", "merging paths that hold different elements")
        if a.pendE != b.pendE:
            s.fail("P10", "an element is examined for exceptional values on one path only (%s)" % [sorted(map(str, x ^ y)) for x, y in zip(a.pendE, b.pendE)])
        j.odirty = a.odirty or b.odirty
        j.allf = [x and y for x, y in zip(a.allf, b.allf)]

    def sc_ok(s, g):
        if g.scok is True or g.am is None or g.amf[0] is None:
            return g.scok is True
        return s.scale_covers(g)

    def scale_covers(s, g):
        b = s.bound_all(g)
        sa = s.ip.intern.get(("SCALE", b))
        if sa is None:
            return False
        q = Poly.atom(sa)
        return g.sc == q or (g.sc, q) in g.cmp

    def bound_all(s, g):
        its = {p for p in g.amf if p is not None}
        if len(its) == 1:
            return next(iter(its))
        return Poly.atom(s.maxatom(frozenset(its)))

    def ghost_leq(s, ip, H, B, sigma):
        h, b = H.ghost, B.ghost
        if (h.am is None) != (b.am is None) or h.G != b.G or h.pend != b.pend or h.pendE != b.pendE:
            return False
        if h.amf != b.amf and h.am is not None:
            return False
        if not b.due <= h.due:
            return False
        if s.cfg.scaled:
            if h.sc != b.sc and not s.is_sc(h.sc):
                return False
            if h.scok and not s.sc_ok(b) and h.am is not None:
                return False
        if any(x and not y for x, y in zip(h.allf, b.allf)):
            return False
        if not h.cmp <= b.cmp or not h.dom <= b.dom:
            return False
        for k, v in h.fact.items():
            if k not in b.fact or not b.fact[k] <= v:
                return False
        return True

    def is_sc(s, p):
        a = p.single() if p is not None else None
        return a is not None and a.info and a.info[0] == "SC"

    def inv_sc(s, p, g):
        """p is 1/scale"""
        a = p.single() if g.sc is not None and g.sc.d else None
        return a is not None and bool(a.info) and a.info[0] == "inv" and a.info[1] == g.sc

    def key(s, st, block):
        g = st.ghost
        z = []
        if block is not None:
            for n in sorted(st.env):
                v = st.env[n]
                if isinstance(v, F):
                    z.append((n, s.tagz(v)))
                elif isinstance(v, tuple) and v and isinstance(v[0], F):
                    z.append((n, tuple(s.tagz(w) for w in v)))
        return (tuple(g.idx0), tuple(g.hcls), tuple(g.cov), g.merged, g.am is None, tuple(g.amcls), tuple(z), tuple(tuple(sorted((c, t, repr(k)) for c, t, k in q)) for q in g.pendE),
                tuple(sorted((r.seq, n) for r, n in g.freed.items())), g.inited, g.csr, g.odirty)

    def tagz(s, v):
        if not isinstance(v, F):
            return "?"
        if v.p.is_const():
            return v.p.cval()
        if s.xatoms(v.p):
            return "x"
        return "."

    def join_float(s, ip, a, b, A, B, slot, hdr):
        if a.odd != b.odd:
            return None
        ga, gb = A.ghost, B.ghost
        pa, pb = a.p.single(), b.p.single()
        if s.cfg.scaled and a.p == ga.sc and b.p == gb.sc and not a.odd:
            s._hdrname = slot[1] if len(slot) > 1 else "?"
            return F(J_sc(s, ip, ga.sc, gb.sc, s._hdrname), False, a.prec)
        if s.cfg.scaled and s.inv_sc(a.p, ga) and s.inv_sc(b.p, gb):
            return ip.fdefault(None, "fdiv", F(ONE), F(J_sc(s, ip, ga.sc, gb.sc, s._hdrname)))
        # exceptional heads
        k = []
        for q in (a.p, b.p):
            x = q.single()
            if x is not None and x.info and x.info[0] in ("EXC", "INF", "NAN", "MX"):
                k.append((x.info[0], x.info[1]))
            elif x is not None and x.info and x.info[0] in ("P", "OH") and (x.info[0] == "OH" or x.info[2] == 0):
                k.append(("P", x.info[1]))
        if len(k) == 2 and k[0][1] == k[1][1]:
            ks = {k[0][0], k[1][0]}
            if ks <= {"EXC", "INF", "NAN"}:
                return F(Poly.atom(s.spec_atom("EXC", k[0][1])), False, a.prec)
            return F(Poly.atom(s.spec_atom("MX", k[0][1])), False, a.prec)
        sa, sb = s.special(a.p), s.special(b.p)
        j = [q.info[1] for q in (sa, sb) if q is not None and q.info[0] == "JUNK"]
        if j and (sa is None or sa.info[0] != "stale") and (sb is None or sb.info[0] != "stale"):
            return F(Poly.atom(s.spec_atom("JUNK", j[0])), False, a.prec)
        # the same element counted from kappa
        if hdr is None and a.p != b.p and ga.kap != gb.kap and s.xatoms(a.p) and s.xatoms(b.p):
            ra, rb = s.subst_form(a.p, None, lambda k: k - ga.kap), s.subst_form(b.p, None, lambda k: k - gb.kap)
            if ra == rb:
                kj = ip.joining.ghost.kap
                return F(s.subst_form(ra, None, lambda k: k + kj), a.odd, a.prec, a.rng if a.rng == b.rng else None, a.inex or b.inex)
        # maximum by comparison
        if (a.p, b.p) in ga.cmp and (b.p, a.p) in gb.cmp:
            m = s.fmax(a, b)
            if m is not None:
                return m
        if pa is not None and pb is not None and pa.info and pb.info and "stale" in (pa.info[0], pb.info[0]):
            return F(Poly.atom(ip.opaque("stale", info=("stale",))), False, a.prec)
        if s.touches(a.p) or s.touches(b.p):
            return F(Poly.atom(ip.opaque("stale", info=("stale",))), False, a.prec)
        return None

    def leq_float(s, ip, h, v, H, B):
        if h.odd != v.odd:
            return False
        a = h.p.single()
        if a is not None and a.info:
            x = v.p.single()
            xi = x.info[0] if x is not None and x.info else None
            if a.info[0] == "MX":
                return xi in ("EXC", "INF", "NAN", "MX", "OH") and x.info[1] == a.info[1] or xi == "P" and x.info[2] == 0 and x.info[1] == a.info[1]
            if a.info[0] == "EXC":
                return xi in ("EXC", "INF", "NAN") and x.info[1] == a.info[1]
            if s.cfg.scaled and s.inv_sc(h.p, H.ghost) and s.inv_sc(v.p, B.ghost):
                return True
            if a.info[0] == "SC":
                return v.p == B.ghost.sc and h.p == H.ghost.sc
            if a.info[0] == "stale":
                return True
            if a.info[0] == "JUNK":
                return xi != "stale"
            if a.info[0] == "alt":
                return h == v or v in a.info[1]
        return None

    # ------------------------------------------------------------ conditions on floats
    def assume(s, st, c):
        neg = False
        while isinstance(c, Cond) and c.op == "not":
            c, neg = c.a[0], not neg
        if not isinstance(c, Cond):
            return True
        g = st.ghost
        if c.op == "cls":
            x, names = c.a
            allow = classes(names)
            if neg:
                allow = ALL - allow if "norm" in names or not (names & {"zero", "norm"}) else ALL - (allow - {"fin"})
            return s.restrict(st, x, allow)
        if c.op == "f":
            pred, a, b = c.a
            if neg:
                flip = {"ogt": "ule", "oge": "ult", "olt": "uge", "ole": "ugt", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt"}
                pred = flip.get(pred, "")
            if s.cfg.scaled and pred[1:] in ("le", "lt", "eq") and a.p == g.sc and b.p == ZERO and a.p.d:
                old = a.p
                g.sc = ZERO
                s.mapforms(st, lambda pos, p: ZERO if p == old else None)
                return True
            if pred[1:] in ("gt", "ge"):
                g.cmp = g.cmp | {(a.p, b.p)}
            elif pred[1:] in ("lt", "le"):
                g.cmp = g.cmp | {(b.p, a.p)}
            if s.cfg.ismax:
                hi, lo = (a, b) if pred[1:] in ("gt", "ge") else (b, a)
                m = s.fmax(hi, lo) if pred[1:] in ("gt", "ge", "lt", "le") else None
                if m is not None and m.p != hi.p and hi.p.d:
                    s.mapforms(st, lambda pos, p: m.p if p == hi.p else None)
                elif m is not None and not hi.p.d:
                    g.dom = g.dom | s.maxitems(lo)
                g.cmp = frozenset()
                return True
            if len(g.cmp) > 12:
                g.cmp = frozenset(sorted(g.cmp, key=repr)[:12]) | {(a.p, b.p), (b.p, a.p)} & g.cmp
            return True
        return True

    def restrict(s, st, x, allow):
        g = st.ghost
        p = x.p
        a = p.single()
        if a is not None and a.info:
            k = a.info[0]
            if k in ("P", "OH") and (k == "OH" or a.info[2] == 0):
                h = a.info[1]
                if (k == "OH" or not s.cfg.temp) and s.absurd(st, h):
                    return False
                cur = g.fact.get(p, ALL if s.world == "exc" and k == "P" else frozenset(("fin",)))
                cur = (cur & allow) - {"inf"}
                if not cur:
                    return False
                if cur == {"nan"}:
                    if s.cfg.temp:
                        g.odirty = True
                        return True
                    s.settle_nan(st, h)
                    return True
                if cur != ALL - {"inf"}:
                    g.fact[p] = cur
                return True
            if k == "P":
                return "fin" in allow
            if k in ("EXC", "MX"):
                h = a.info[1]
                full = frozenset(("inf", "nan")) if k == "EXC" else ALL
                if k == "MX":
                    s.examined(st) if any(st.ghost.pendE) else None
                    if not s.complete(st, h):
                        s.fail("P10", "component %d is tested before every element of the block has been examined" % h)
                    if s.absurd(st, h):
                        return False
                    full = frozenset(("inf", "nan")) if s.due_inf(g, h) else ALL
                cur = g.fact.get(p, full) & full & allow
                if not cur:
                    return False
                if cur == {"inf"}:
                    s.refine(st, h, ("EXC", "MX"), "INF")
                elif cur == {"nan"}:
                    s.refine(st, h, ("EXC", "MX"), "NAN")
                elif k == "MX" and "fin" not in cur:
                    s.refine(st, h, ("MX",), "EXC")
                return True
            if k in ("INF", "NAN"):
                return {"INF": "inf", "NAN": "nan"}[k] in allow
            if k == "JUNK":
                cur = g.fact.get(p, ALL) & allow
                g.fact[p] = cur
                return bool(cur)
            if k == "A":
                return "fin" in allow if g.amcls[a.info[1]] == "fin" else "inf" in allow
        if s.xatoms(p):
            cur = g.fact.get(p, ALL if s.world == "exc" else frozenset(("fin",))) & allow
            if not cur:
                return False
            g.fact[p] = cur
            w = s.which(p, x)
            if w is not None:
                c, t, k = w
                for h, need in enumerate(s.cfg.heads):
                    if (c, t) in need and g.am is not None and g.hcls[h] != "nan":
                        if cur == {"fin"}:
                            g.pendE[h] = g.pendE[h] | {(c, t, k - g.ke[h])}
                        elif "fin" not in cur and (c, t, k - g.ke[h]) not in g.pendE[h]:
                            g.due = g.due | {(h, c, t, k)}
        return True

    def which(s, p, x=None):
        """(c, t, k) of an exceptional-loop term form (up to sign for the finiteness test)"""
        ks = s.xatoms(p)
        if len(ks) != 1:
            return None
        for c in range(s.cfg.C):
            for t in range(len(s.cfg.terms[c])):
                e = s.eterm(c, t, ks[0])
                if e == p or e == -p:
                    return c, t, ks[0]
        if s.cfg.sign:
            for c in range(s.cfg.C):
                if s.eterm(c, 0, ks[0]) == s.ip.abs_poly(p):
                    return c, 0, ks[0]
        return None

    def settle_nan(s, st, h):
        g = st.ghost
        g.hcls[h] = "nan"
        g.fact.pop(Poly.atom(s.Pat(h, 0)), None)
        for l in range(s.fold):
            g.G.pop((h, l), None)
        for k in [k for k in g.pend if k[0] == h]:
            del g.pend[k]
        n = Poly.atom(s.spec_atom("NAN", h))
        a = s.Pat(h, 0)
        s.mapforms(st, lambda pos, p: n if a in p.atoms() else None)

    def refine(s, st, h, old, new):
        g = st.ghost
        n = Poly.atom(s.spec_atom(new, h))
        olds = [Poly.atom(s.spec_atom(o, h)) for o in old]
        for o in olds:
            g.fact.pop(o, None)
        s.mapforms(st, lambda pos, p: n if p in olds else None)
        g.hcls[h] = {"INF": "inf", "NAN": "nan", "EXC": "exc"}[new]

    # ------------------------------------------------------------ arithmetic
    def special(s, p):
        for a in p.atoms():
            if a.info and a.info[0] in ("JUNK", "EXC", "INF", "NAN", "MX", "stale"):
                return a
        return None

    def fop(s, ip, st, op, a, b, inst):
        if s.cfg.ismax:
            return s.fopmax(st, op, a, b, inst)
        if op == "fptrunc":
            x = a.p.single() if not a.odd else None
            if s.cfg.scaled and x is not None and x.info and x.info[0] == "inv":
                y = x.info[1].single()
                if y is not None and (x.info[1] == s.scaleY or y.info and y.info[0] in ("SC", "SCALE")):
                    return F(a.p, prec="f")     # scales are powers of two whose reciprocals both formats hold
            return NotImplemented
        if op in ("fadd", "fsub"):
            return s.addsub(st, op, a, b, inst)
        sp = s.special(a.p) or s.special(b.p)
        if sp is not None:
            return F(Poly.atom(s.spec_atom("JUNK", sp.info[1]) if sp.info[0] != "stale" else sp), False, a.prec)
        if op == "fmul":
            if a.odd or b.odd:
                return F(Poly.atom(ip.opaque("oddmul", a, b)), False, a.prec)
            return F(ip_mul(ip, a.p, b.p), False, a.prec)
        return NotImplemented

    def addsub(s, st, op, a, b, inst):
        g = st.ghost
        if op == "fsub":
            b = F(-b.p, b.odd, b.prec)
        if b.p.is_const() and abs(b.p.cval()) == s.P.denorm:
            b = F(ZERO, True, b.prec)
        if a.p.is_const() and abs(a.p.cval()) == s.P.denorm:
            a = F(ZERO, True, a.prec)
        if a.odd and not b.odd:
            a, b = b, a
        sp = s.special(a.p)
        if b.odd:
            if a.odd:
                s.fail("P02", "two values with forced low bits are added", inst)
            if sp is not None and sp.info[0] == "stale":
                s.fail("P01 P02", "an element is deposited into an outdated copy of an accumulator", inst)
            if sp is not None:
                return F(Poly.atom(s.spec_atom("JUNK", sp.info[1])), False, a.prec)
            return s.deposit(st, a, b, inst)
        sb = s.special(b.p)
        if sp is None and sb is not None:
            a, b, sp, sb = b, a, sb, sp
        # plain addition of an element to a head
        if s.xatoms(b.p) or s.xatoms(a.p):
            for x, y, sx in ((a, b, sp), (b, a, sb)):
                i = x.p.single()
                if i is None or not i.info or not s.xatoms(y.p) or s.touches(y.p):
                    continue
                if i.info[0] in ("EXC", "INF", "NAN", "MX", "OH") or i.info[0] == "P" and i.info[2] == 0:
                    return s.excadd(st, i, y, inst)
        if sp is not None or sb is not None:
            q = sp if sp is not None else sb
            if q.info[0] == "stale":
                return F(Poly.atom(q), False, a.prec)
            h = q.info[1]
            kinds = {z.info[0] for z in (sp, sb) if z is not None}
            if "NAN" in kinds:
                return F(Poly.atom(s.spec_atom("NAN", h)), False, a.prec)
            return F(Poly.atom(s.spec_atom("JUNK", h)), False, a.prec)
        if s.cfg.temp and g.odirty:
            return F(Poly.atom(s.spec_atom("NAN", 0)), False, a.prec)
        p = a.p + b.p
        return F(p, False, a.prec)

    def deposit(s, st, a, b, inst):
        g = st.ghost
        q = s.parse(a.p)
        if q is None:
            if b.p == ZERO:
                return F(a.p, False, a.prec)
            s.fail("P01 P02", "a value with its low bit forced is added to something that is not an accumulator slot: %r" % a.p, inst)
        c, l, _ = q
        if b.p == ZERO:
            return F(a.p, False, a.prec)
        if not s.finite(g, c):
            return F(Poly.atom(s.spec_atom("JUNK", c)), False, a.prec)
        s.stats["deposits"] += 1
        ks = s.xatoms(b.p)
        if g.idx0[c] is None:
            s.fail("P02", "component %d is deposited to without having tested for the largest bin" % c, inst)
        if len(ks) != 1:
            s.fail("P01 P02", "deposited value mixes elements: %r" % b.p, inst)
        k = ks[0]
        for t in range(len(s.cfg.terms[c])):
            w = s.chain(g, c, l, t, k)
            if b.p == w:
                key = (c, l, t)
                g.pend[key] = g.pend.get(key, ()) + (k,)
                return F(a.p + Poly.atom(s.Rat(c, l, t, k)), False, a.prec)
        tags = "P01 P02" + (" P11" if s.cfg.C == 2 else "") + (" P21" if s.cfg.scaled else "")
        s.fail(tags, "level %d of component %d receives %r; what the earlier levels left of the element is %s" % (
            l, c, b.p, " or ".join(repr(s.chain(g, c, l, t, k)) for t in range(len(s.cfg.terms[c])))), inst)

    def chain(s, g, c, l, t, k):
        p = s.term(g, c, t, k)
        e0 = g.idx0[c]
        for j in range(l):
            r = Poly.atom(s.Rat(c, j, t, k))
            p = p - (r.scale(s.P.exp) if e0 and j == 0 else r)
        if e0 and l == 0:
            p = p.scale(s.P.comp)
        return p

    def excadd(s, st, head, y, inst):
        g = st.ghost
        h = head.info[1]
        if head.info[0] == "NAN":
            return F(Poly.atom(s.spec_atom("NAN", h)), False, y.prec)
        parts = []
        rest = y.p
        ks = s.xatoms(y.p)
        for k in ks:
            for c, t in s.cfg.heads[h]:
                e = s.eterm(c, t, k)
                if e.d and all(rest.d.get(m) == v for m, v in e.d.items()):
                    parts.append((c, t, k, e))
                    rest = rest - e
        if rest.d or not parts:
            s.fail("P10 P01" + (" P11" if s.cfg.C == 2 else ""), "component %d's head receives %r, which is none of its elements" % (h, y.p), inst)
        if g.am is None:
            s.fail("P10 P02", "an element is added to a head outside a block", inst)
        kind = "EXC"
        for c, t, k, e in parts:
            f = g.fact.get(e)
            if f is None:
                f = g.fact.get(-e)
            if f is None and s.cfg.sign:
                for q, v in g.fact.items():
                    if s.xatoms(q) == [k] and s.ip.abs_poly(q) == e:
                        f = v
            f = f if f is not None else ALL
            if "fin" in f:
                kind = "MX"
                if (not s.cfg.sign or len(parts) > 1) and head.info[0] != "NAN":
                    s.fail("P10", "a finite element may be added plainly to an exceptional head, which can overflow before an "
                           "infinity of the other sign arrives", inst)
            g.pendE[h] = g.pendE[h] | {(c, t, k - g.ke[h])}
            g.allf[h] = False
            g.due = g.due - {(h, c, t, k)}
        if head.info[0] in ("EXC", "INF"):
            kind = "EXC"
        if head.info[0] == "NAN":
            kind = "NAN"
        return F(Poly.atom(s.spec_atom(kind, h)), False, y.prec)

    # ------------------------------------------------------------ maxima
    def maxatom(s, items):
        flat = set()
        for p in items:
            a = p.single()
            if a is not None and a.info and a.info[0] == "max":
                flat |= a.info[1]
            else:
                flat.add(p)
        flat = frozenset(flat)
        cls = None
        kinds = set()
        for p in flat:
            a = p.single()
            kinds.add(a.cls[0] if a is not None and a.cls else None)
        if "inf" in kinds:
            cls = ("inf", 0)
        elif kinds == {"fin"}:
            cls = ("fin",)
        return s.ip.opaque("max", flat, name="max", info=("max", flat), cls=cls)

    def maxitems(s, x):
        """items a maximum form covers; None when not such a form"""
        if x is UNDEF or not isinstance(x, F) or x.odd:
            return None
        if x.p == ZERO:
            return frozenset()
        a = x.p.single()
        if a is None or not a.info:
            return None
        if a.info[0] == "max":
            return a.info[1]
        if a.info[0] in ("abs", "A", "M"):
            return frozenset((x.p,))
        return None

    def fmax(s, a, b):
        ia, ib = s.maxitems(a), s.maxitems(b)
        if ia is None or ib is None:
            return None
        u = ia | ib
        if not u:
            return F(ZERO, prec=a.prec)
        if len(u) == 1:
            return F(next(iter(u)), prec=a.prec)
        return F(Poly.atom(s.maxatom(u)), prec=a.prec)

    def vselect(s, ip, st, c, a, b, it):
        neg = False
        while isinstance(c, Cond) and c.op == "not":
            c, neg = c.a[0], not neg
        if isinstance(c, Cond) and c.op == "f":
            pred, x, y = c.a
            hi, lo = (a, b) if not neg else (b, a)
            if pred[1:] in ("gt", "ge") and (hi, lo) == (x, y) or pred[1:] in ("lt", "le") and (hi, lo) == (y, x):
                return s.fmax(a, b)
        return None

    def fopmax(s, st, op, a, b, inst):
        if op == "fmul":
            return F(ip_mul(s.ip, a.p, b.p), False, a.prec)
        return NotImplemented

    # ------------------------------------------------------------ calls
    def need(s, cond, tags, msg, inst):
        if not cond:
            s.fail(tags, msg, inst)

    def accref(s, st, args, manual, comps):
        """which accumulator the operands name: ('D'|'O', first component, is it whole?) or None"""
        c = s.cfg
        p = args[0]
        if not isinstance(p, Ptr):
            return None
        if p.r is s.pri:
            if not manual:
                return None
            if args[1] != Poly.atom(s.ip_):
                return None
            if not p.o.is_const() or p.o.cval() % s.es or not 0 <= p.o.cval() // s.es < c.OC:
                return None
            k = int(p.o.cval() // s.es)
            if comps != c.OC and not (comps == 1 and c.OC == 2):
                return None
            if comps == 1 and c.OC == 2:
                return None          # strides differ for a component view
            if len(args) > 2 and (not isinstance(args[2], Ptr) or args[2].r is not s.car or args[2].o != p.o or args[3] != Poly.atom(s.ic_)):
                return None
            return ("O" if c.temp else "D", k)
        if s.heap is not None and p.r is s.heap and p.o.is_const():
            k, rem = divmod(int(p.o.cval()), s.es)
            if rem or not 0 <= k < c.C:
                return None
            if manual:
                if comps == c.C:
                    if k or args[1] != ONE:
                        return None
                    st2 = ONE
                elif comps == 1:
                    if args[1] != Poly.const(c.C):
                        return None
                    st2 = Poly.const(c.C)
                else:
                    return None
                if len(args) > 2:
                    w = Poly.const(s.es * (c.C * s.fold + k))
                    if not isinstance(args[2], Ptr) or args[2].r is not s.heap or args[2].o != w or args[3] != st2:
                        return None
            elif k or comps != c.C:
                return None
            return ("D", k)
        return None

    def vecargs(s, st, args, inst):
        s.cur = st
        """checks that (n, X, incX, ...) denote the elements from kappa on"""
        g = st.ghost
        n = s.ip.toint(args[0])
        N = Poly.atom(s.N)
        for i in range(s.cfg.nvec):
            p, inc = args[1 + 2 * i], args[2 + 2 * i]
            if not isinstance(p, Ptr) or p.r is not s.vecs[i]:
                alt = [j for j in range(s.cfg.nvec) if isinstance(p, Ptr) and p.r is s.vecs[j]]
                s.fail("P03 P04", "bound is taken of the wrong vector", inst)
            k, comp = s.locate(i, p.o)
            if k is None or comp or k != g.kap:
                s.fail("P03 P04", "bound is taken from element %r on, elements are deposited from %r on" % (k, g.kap), inst)
            if inc != s.incv[i]:
                s.fail("P03 P04", "bound is taken with stride %r" % (inc,), inst)
        lo = st.bounds(N - g.kap - n)[0]
        if lo is None or lo < 0:
            s.fail("P14 P03", "bound is taken of more elements than the vector has", inst)
        return n

    def call(s, ip, st, name, args, inst):
        g = st.ghost
        c = s.cfg
        if name.startswith("llvm.x86") and ".max." in name and isinstance(args[0], tuple):
            out = []
            for a, b in zip(*args):
                r = s.fmax(a, b)
                if r is None:
                    s.fail("P04", "maximum of a value that is not an absolute value: %r, %r" % (a, b), inst)
                out.append(r)
            return tuple(out)
        if name in ("fmax", "fmaxf") or name.startswith("llvm.maxnum"):
            r = s.fmax(*args) if isinstance(args[0], F) else None
            if r is None:
                s.fail("P04", "maximum of a value that is not an absolute value: %r" % (args,), inst)
            return r
        if name.startswith("llvm.x86.sse.stmxcsr"):
            p = args[0]
            v = g.csr if g.csr is not None else Poly.atom(ip.opaque("CSR", info=("CSR",)))
            from absint import I32
            ip.store(st, p, v, I32, inst)
            return None
        if name.startswith("llvm.x86.sse.ldmxcsr"):
            v = st.mem.get(args[0].r, {}).get(args[0].o)
            v = v[0] if v else None
            g.csr = None if v == Poly.atom(ip.opaque("CSR", info=("CSR",))) else v
            return None
        if c.ismax:
            return NotImplemented
        m = re.match(r"binnedBLAS_([dszc])amax(m?)(_sub)?$", name)
        if m:
            s.stats["events"] += 1
            T, mm = m.group(1), m.group(2)
            s.need(T == c.T and bool(mm) == (c.op == "dot"), "P03 P04", "bound routine %s does not fit the operands" % name, inst)
            s.settle(st, "the bound of the next block is taken", inst)
            n = s.vecargs(st, args, inst)
            old = {s.ip.intern.get(("A", cc, k)) for cc in range(c.C) for k in ("fin", "inf")}
            old |= {a for key, a in s.ip.intern.items() if key[0] in ("max", "SCALE")}
            st_ = lambda pos, p: Poly.atom(ip.opaque("staleA", info=("staleA",))) if p.atoms() & old and p != g.sc else None
            s.mapforms(st, st_)
            if s.cfg.scaled and g.sc is not None and g.sc.atoms() & old and not s.is_sc(g.sc):
                nsc = Poly.atom(ip.opaque("SC", "prev", info=("SC",), rng=(0, TWO ** (s.P.maxexp + 1))))
                osc = g.sc
                s.mapforms(st, lambda pos, p: nsc if p == osc else None)
                g.sc = nsc
            g.cmp = frozenset()
            g.am = (g.kap, n)
            g.ke = [g.kap] * len(g.ke)
            g.pendE = [frozenset()] * len(g.ke)
            g.allf = [True] * len(g.ke)
            g.cov = [False] * c.C
            g.idx0 = [None] * c.C
            g.fact = {}
            g.due = frozenset()
            g.scok = False
            kinds = [("fin",) * c.C]
            if s.world == "exc":
                import itertools
                kinds = list(itertools.product(("fin", "inf"), repeat=c.C))
            out = []
            for kd in kinds:
                q = st.copy()
                g2 = q.ghost
                g2.amcls = list(kd)
                fs = []
                for cc, k in enumerate(kd):
                    a = ip.opaque("A", cc, k, info=("A", cc), cls=("fin",) if k == "fin" else ("inf", 0))
                    fs.append(Poly.atom(a))
                g2.amf = fs
                if c.cv == 1:
                    out.append((q, F(fs[0], prec=s.P.k)))
                else:
                    p = args[-1]
                    from absint import DBL, FLT
                    for cc in range(c.cv):
                        ip.store(q, Ptr(p.r, p.o + s.es * cc), F(fs[cc], prec=s.P.k), DBL if s.es == 8 else FLT, inst)
                    out.append((q, None))
            return out
        m = re.match(r"binned_([dszc])([mb])([dszc])?(update|renorm|rescale|madd|maddsq|badd|baddsq|setzero|alloc)$", name)
        if m:
            s.stats["events"] += 1
            return s.event(ip, st, name, m, args, inst)
        m = re.match(r"binned_([ds])mindex0$", name)
        if m:
            p = args[0]
            w = s.cell(p.r, p.o) if isinstance(p, Ptr) else None
            s.need(w is not None and w[0] == "D" and w[2] == 0 and m.group(1) == c.r, "P02", "%s of something that is not a head" % name, inst)
            cc = w[1]
            if not s.finite(g, cc):
                return Poly.const(0)
            if g.idx0[cc] is not None:
                return Poly.const(int(g.idx0[cc]))
            if not g.cov[cc]:
                s.fail("P02 P03", "the head of component %d is tested for the largest bin before it is updated" % cc, inst)
            a, b = st.copy(), st
            a.ghost.idx0[cc] = True
            b.ghost.idx0[cc] = False
            return [(a, Poly.const(1)), (b, Poly.const(0))]
        m = re.match(r"binned_([ds])scale$", name)
        if m:
            s.need(m.group(1) == c.r, "P21", "scale of the other precision", inst)
            p = args[0].p
            if p.is_const():
                return F(Poly.atom(ip.opaque("SCALEC", p, rng=(TWO ** -1200, TWO ** 1100), info=("SCALEC", p))), prec=s.P.k)
            return F(Poly.atom(ip.opaque("SCALE", p, rng=(TWO ** -1200, TWO ** 1100), info=("SCALE", p))), prec=s.P.k)
        if name == "free":
            r = args[0].r if isinstance(args[0], Ptr) else None
            if r is None or r.kind != "heap" or args[0].o != ZERO:
                s.fail("P15", "free of something that was not allocated", inst)
            g.freed[r] = g.freed.get(r, 0) + 1
            if g.freed[r] > 1:
                s.fail("P15", "temporary freed twice", inst)
            return None
        return NotImplemented

    def event(s, ip, st, name, m, args, inst):
        g, c = st.ghost, s.cfg
        T, lay, S, op = m.groups()
        manual = lay == "m"
        if op in ("update", "renorm", "rescale", "setzero", "alloc") and REALOF[T] != c.r:
            s.fail("P01 P03", "%s is of the other precision" % name, inst)
        if op == "alloc":
            s.need(args[0] == Poly.const(s.fold), "P15", "%s allocates for fold %r" % (name, args[0]), inst)
            s.need(COMPS[T] == c.C and c.temp, "P15", "%s allocates the wrong kind of accumulator" % name, inst)
            if s.heap is None:
                s.heap = Region("temp", "heap", size=2 * s.es * c.C * s.fold)
            r = s.heap
            if r in g.freed:
                s.fail("P15", "temporary allocated twice", inst)
            g.freed[r] = 0
            st.mem[r] = {}
            st.own.add(r)
            return Ptr(r, ZERO)
        s.need(args[0] == Poly.const(s.fold), "P01 P03 P15", "%s is called with fold %r" % (name, args[0]), inst)
        if op == "setzero":
            ref = s.accref(st, args[1:], manual, COMPS[T])
            s.need(ref == ("D", 0) and c.temp, "P15", "%s of something else than the temporary" % name, inst)
            s.need(not g.kap.d or g.kap == ZERO, "P01", "the temporary is cleared again", inst)
            g.inited = g.inited | {s.heap}
            for k, l, r, o in s.Dcells():
                s.setcell(st, r, o, Poly.atom(s.Pat(k, l)))
            return None
        if c.temp and s.heap not in g.inited:
            s.fail("P15 P01", "%s before the temporary is initialised" % name, inst)
        if op == "renorm":
            ref = s.accref(st, args[1:], manual, COMPS[T])
            s.need(ref == ("D", 0) and COMPS[T] == c.C, "P03 P17", "%s does not address the accumulator deposited to" % name, inst)
            s.settle(st, "the accumulator is renormalised", inst)
            g.kr = g.kap
            return None
        if op == "update":
            ref = s.accref(st, args[2:], manual, COMPS[T])
            s.need(ref == ("D", 0) and COMPS[T] == c.C, "P03 P17", "%s does not address the accumulator deposited to" % name, inst)
            s.settle(st, "the accumulator is updated", inst)
            if COMPS[S] == 2:
                p = args[1]
                bs = [s.loadf(ip, st, p, i) for i in range(2)]
            else:
                bs = [args[1]] * c.C
            if c.scaled and not g.sc.d:
                s.adopt(g, bs)
            for cc in range(c.C):
                if not s.finite(g, cc):
                    continue
                b = bs[cc]
                ok = isinstance(b, F) and g.am is not None and s.bounds_comp(g, b.p, cc)
                if not ok:
                    s.fail("P03" + (" P11" if c.C == 2 else "") + (" P21" if c.scaled else ""), "component %d is updated with %r, which does not bound the block's elements" % (cc, b), inst)
                if g.amcls[cc] == "inf" and not c.temp and s.absurd(st, cc):
                    return []
                if g.amcls[cc] == "inf" and not c.temp:
                    s.fail("P10", "a finite accumulator is updated with an infinite bound", inst)
                g.cov[cc] = True
                g.idx0[cc] = None
            s.coarsen(st)
            if c.scaled:
                if not (g.scok or s.scale_covers(g)):
                    s.fail("P21", "elements are scaled with a scale that may be below the one of their maximum", inst)
                g.scok = True
            s.scrub(st)
            return None
        if op == "rescale":
            ref = s.accref(st, args[3:], manual, COMPS[T])
            s.need(ref == ("D", 0) and COMPS[T] == c.C and c.scaled, "P21", "%s does not address the accumulator deposited to" % name, inst)
            s.settle(st, "the accumulator is rescaled", inst)
            new, old = args[1], args[2]
            s.need(isinstance(old, F) and old.p == g.sc, "P21", "rescaled from %r, the accumulator's scale is %r" % (old, g.sc), inst)
            g.sc = new.p
            s.scrub(st)
            return None
        if op in ("madd", "maddsq"):
            s.need(REALOF[T] == c.r and T == REALOF[T] and manual and c.temp, "P01", "unexpected %s" % name, inst)
            a = args[1:]
            s.settle(st, "the temporary is added to the result", inst)
            if op == "maddsq":
                sx, a = a[0], a[1:]
            src = s.accref(st, a[:4], True, 1)
            a = a[4:]
            if op == "maddsq":
                sy, a = a[0], a[1:]
            dst = s.accref(st, a[:4], True, 1)
            s.need(src is not None and src[0] == "D", "P01 P17 P15", "%s: source is not one component of the temporary" % name, inst)
            s.need(dst is not None and dst[0] == "O", "P01 P17 P14", "%s: destination is not the result" % name, inst)
            s.need((op == "maddsq") == c.scaled, "P21 P01", "%s combines without scales" % name, inst)
            s.need(src[1] not in g.merged, "P01 P11", "component %d of the temporary is added twice" % src[1], inst)
            s.need(g.freed.get(s.heap) == 0, "P15", "temporary used after free", inst)
            g.merged = tuple(sorted(g.merged + (src[1],)))
            if c.scaled:
                want = s.scaleY if len(g.merged) == 1 else g.ret
                s.need(isinstance(sx, F) and sx.p == g.sc, "P21", "%s: the temporary's scale is %r, not %r" % (name, g.sc, sx), inst)
                s.need(isinstance(sy, F) and sy.p == want, "P21", "%s: the result's scale is %r, not %r" % (name, want, sy), inst)
                g.ret = Poly.atom(ip.opaque("MSC", len(g.merged), src[1], info=("MSC",)))
                return F(g.ret, prec=s.P.k)
            return None
        s.fail("P01", "unexpected %s" % name, inst)

    def loadf(s, ip, st, p, i):
        if not isinstance(p, Ptr):
            return None
        e = st.mem.get(p.r, {}).get(p.o + s.es * i)
        return e[0] if e else None

    def adopt(s, g, bs):
        """nothing has been deposited: the scale is whatever the bound was divided by"""
        for key in (s.bound_all(g),) + tuple(q for q in g.amf if q is not None):
            a = s.ip.intern.get(("SCALE", key))
            if a is None:
                continue
            w = s.ip.fdefault(None, "fdiv", F(key), F(Poly.atom(a))).p
            if any(isinstance(b, F) and b.p == ip_mul(s.ip, w, w) for b in bs):
                g.sc = Poly.atom(a)
                return

    def bounds_comp(s, g, p, c):
        """does the update bound p dominate the terms of component c?"""
        if s.cfg.scaled:
            for q in (g.amf[c], s.bound_all(g)):
                w = s.ip.fdefault(None, "fdiv", F(q), F(g.sc)).p if g.sc.d else None
                if w is not None and p == ip_mul(s.ip, w, w):
                    return True
            return False
        if p == g.amf[c]:
            return True
        a = p.single()
        return a is not None and a.info and a.info[0] == "max" and g.amf[c] in a.info[1]

    def unknown_call(s, ip, st, name, args, inst):
        raise AnalysisBroken("call to unmodelled function %s" % name)

    # ------------------------------------------------------------ maximum kernels: absorbing
    def mitem(s, p):
        """(component, term, k) of an absolute-value term"""
        ks = s.xatoms(p)
        if len(ks) != 1:
            return None
        for c in range(s.cfg.C):
            for t in range(len(s.cfg.terms[c])):
                if s.term(None_G, c, t, ks[0]) == p:
                    return c, t, ks[0]
        return None

    def mslots(s, st):
        for pos, v in s.positions(st):
            it = s.maxitems(v)
            if it is not None and (it or v.p == ZERO):
                yield pos, it

    def mcollect(s, st, slots):
        """the items held by slots, per component; checks every slot stays within one component"""
        comp = {}
        for pos, it in slots:
            cs = set()
            for p in it:
                a = p.single()
                if a.info[0] == "M":
                    cs.add(a.info[1])
                else:
                    w = s.mitem(p)
                    if w is None:
                        s.fail("P04", "maximum over %r, which is no element" % p)
                    cs.add(w[0])
            comp[pos] = cs
        return comp

    def madvance(s, st, items):
        """all terms of the elements from kappa on are held: move kappa"""
        g = st.ghost
        per = {}
        for p in items:
            a = p.single()
            if a.info[0] == "M":
                continue
            c, t, k = s.mitem(p)
            d = k - g.kap
            if not d.is_const():
                s.fail("P04", "element %r is examined while elements up to %r have been" % (k, g.kap))
            per.setdefault((c, t), set()).add(int(d.cval()))
        if not per:
            return
        n = max(len(v) for v in per.values())
        for c in range(s.cfg.C):
            for t in range(len(s.cfg.terms[c])):
                if per.get((c, t), set()) != set(range(n)):
                    s.fail("P04" + (" P11" if s.cfg.C == 2 else ""), "component %d term %d: elements %s past the last merge are examined instead of 0..%d" % (
                        c, t, sorted(per.get((c, t), ())), n - 1))
        g.kap = g.kap + n

    def mabsorb(s, A, B, b):
        sa, sb = dict(s.mslots(A)), dict(s.mslots(B))
        pos = [p for p in sa if p in sb]
        if all(sa[p] == sb[p] for p in pos) and A.ghost.kap == B.ghost.kap and A.ghost.G == B.ghost.G and A.ghost.dom == B.ghost.dom:
            return False
        ca, cb = s.mcollect(A, [(p, sa[p]) for p in pos]), s.mcollect(B, [(p, sb[p]) for p in pos])
        for X, sx in ((A, sa), (B, sb)):
            items = set(X.ghost.dom)
            for p in pos:
                items |= sx[p]
            X.ghost.dom = frozenset()
            have = {p.single() for p in items if p.single().info[0] == "M"}
            need = set()
            for q in X.ghost.G.values():
                need |= set(q)
            if not need <= have:
                s.fail("P04", "elements seen so far are forgotten at %s" % (b.name if b else "exit"))
            s.madvance(X, items)
        atoms = {}
        pairs = {}
        for p in pos:
            k = (sa[p], sb[p])
            if k[0] or k[1]:
                pairs.setdefault(k, p)
        for k, p in pairs.items():
            cs = ca[p] | cb[p]
            cc = "mixed" if len(cs) > 1 else next(iter(cs))
            nm = ("M", b.name if b else "ret", p[0], p[1] if p[0] == "e" else (p[1].name, p[2]), p[2:] if p[0] == "e" else (), cc)
            atoms[k] = Poly.atom(s.ip.opaque(*nm, name="M%d" % len(s.ip.intern), info=("M", cc)))
        forms = {}
        for k in pairs:
            # a slot that covers another one keeps showing it
            it = frozenset(atoms[j] for j in pairs if j[0] <= k[0] and j[1] <= k[1])
            forms[k] = next(iter(it)) if len(it) == 1 else Poly.atom(s.maxatom(it))
        for p in pos:
            f = forms.get((sa[p], sb[p]))
            if f is not None:
                s.setpos(A, p, f)
                s.setpos(B, p, f)
        newG = frozenset(a.single() for a in atoms.values())
        A.ghost.G = {0: newG}
        B.ghost.G = {0: newG}
        return True

    def mleq(s, H, x, b):
        sh, sx = dict(s.mslots(H)), dict(s.mslots(x))
        pos = [p for p in sh if p in sx]
        if any(p not in sx for p in sh):
            return
        if all(sh[p] == sx[p] for p in pos) and H.ghost.G == x.ghost.G and H.ghost.dom == x.ghost.dom:
            return
        cx = s.mcollect(x, [(p, sx[p]) for p in pos])
        items = set(x.ghost.dom)
        for p in pos:
            if any(a.single().info[0] != "M" for a in sh[p]):
                return
            if {a.single().info[1] for a in sh[p]} - {"mixed"} and cx[p] - {a.single().info[1] for a in sh[p]}:
                return
            items |= sx[p]
        for p in pos:
            for q in pos:
                if sh[p] <= sh[q] and not sx[p] <= sx[q]:
                    return
        for a in {a for it in sh.values() for a in it}:
            own = {sh[p] for p in pos if a in sh[p]}
            if not any(all(o <= z for z in own) for o in own):
                return
        have = {p.single() for p in items if p.single().info[0] == "M"}
        need = set()
        for q in x.ghost.G.values():
            need |= set(q)
        if not need <= have:
            s.fail("P04", "elements seen so far are forgotten at %s" % b.name)
        hM = {p.single() for it in sh.values() for p in it}
        if hM != {a for q in H.ghost.G.values() for a in q}:
            return
        s.madvance(x, items)
        ph = dict(s.positions(H))
        for p in pos:
            s.setpos(x, p, ph[p].p)
        x.ghost.dom = frozenset()
        x.ghost.G = dict(H.ghost.G)

    # ------------------------------------------------------------ exit
    def at_exit(s, st, ret):
        g, c = st.ghost, s.cfg
        N = Poly.atom(s.N)
        if g.csr is not None:
            s.fail("P18", "returns with a changed floating-point control register")
        for r, n in g.freed.items():
            if n != 1:
                s.fail("P15", "the temporary is not released on a path")
        if c.ismax:
            return s.mexit(st, ret)
        nanout = g.odirty or all(h == "nan" for h in g.hcls)
        if not nanout:
            s.settle(st, "return", None)
            for h, cl in enumerate(g.hcls):
                if cl == "nan":
                    continue
                hi = st.bounds(N - g.kap)[1]
                if hi is None or hi > 0:
                    s.fail("P01", "returns after element %r of %r" % (g.kap, N))
            if any(s.finite(g, k) for k in range(c.C)):
                d = g.kap - g.kr
                if d.d and st.bounds(d) != (0, 0):
                    s.fail("P03", "returns without renormalising the last deposits")
            if c.temp:
                s.need(g.merged == tuple(range(c.C)), "P01 P11", "components %s of the temporary are added to the result" % (g.merged,), None)
        elif c.temp:
            v = s.getcell(st, *s.headcell(0))
            a = isinstance(v, F) and v.p.single()
            if not (a and a.info and a.info[0] == "NAN"):
                s.fail("P10", "returns early without passing the NaN to the result")
        if c.scaled:
            want = g.ret if c.temp else g.sc
            a = ret.p.single() if isinstance(ret, F) else None
            exc = nanout or any(h in ("inf", "nan", "exc") for h in g.hcls)
            if a is not None and a.info and a.info[0] == "SCALEC" and a.info[1] == ONE:
                pass
            elif exc and not c.temp:
                s.fail("P21 P10", "exceptional result returned with scale %r" % (ret,))
            elif not (isinstance(ret, F) and ret.p == want):
                s.fail("P21", "returns scale %r, the accumulator's is %r" % (ret, want))

    def mexit(s, st, ret):
        g, c = st.ghost, s.cfg
        N = Poly.atom(s.N)
        vals = []
        if c.cv == 1:
            vals = [ret]
        else:
            for k in range(2):
                e = st.mem.get(s.out, {}).get(Poly.const(s.es * k))
                vals.append(e[0] if e else None)
        seen = set()
        for k, v in enumerate(vals):
            it = s.maxitems(v) if isinstance(v, F) else None
            if it is None:
                s.fail("P04", "result %d is %r, not a maximum of absolute values" % (k, v))
            for p in it:
                a = p.single()
                w = (a.info[1],) if a.info[0] == "M" else s.mitem(p)
                if w is None or w[0] != k:
                    s.fail("P04 P11", "result %d covers values of component %s" % (k, w and w[0]))
            seen |= it
        seen |= g.dom
        have = {p.single() for p in seen if p.single().info[0] == "M"}
        need = set()
        for q in g.G.values():
            need |= set(q)
        if not need <= have:
            s.fail("P04", "elements seen in the loops do not reach the result")
        s.madvance(st, seen)
        hi = st.bounds(N - g.kap)[1]
        if hi is None or hi > 0:
            s.fail("P04", "returns after element %r of %r" % (g.kap, N))


class _NoScale:
    sc = None


None_G = _NoScale()


def J_sc(s, ip, a, b, name):
    return Poly.atom(ip.opaque("SC", "join", info=("SC",), rng=(0, TWO ** (s.P.maxexp + 1))))


def ip_mul(ip, p, q):
    r = p * q
    for a in q.atoms() | p.atoms():
        if a.info and a.info[0] == "inv":
            x = a.info[1].single()
            if x is not None:
                r = ip.cancel(r, x, a)
    return r


# ---------------------------------------------------------------- tasks
def kernels():
    out = []
    for T in "ds":
        p = "binnedBLAS_"
        out += [Cfg(p + "%sm%ssum" % (T, T), T, "sum"), Cfg(p + "%sm%sasum" % (T, T), T, "asum"), Cfg(p + "%sm%sdot" % (T, T), T, "dot"),
                Cfg(p + "%sm%sssq" % (T, T), T, "ssq"), Cfg(p + "%samax" % T, T, "max"), Cfg(p + "%samaxm" % T, T, "maxm")]
        Z = {"d": "z", "s": "c"}[T]
        out += [Cfg(p + "%sm%ssum" % (Z, Z), Z, "sum"), Cfg(p + "%sm%sasum" % (T, Z), Z, "asum"),
                Cfg(p + "%sm%sdotu" % (Z, Z), Z, "dot"), Cfg(p + "%sm%sdotc" % (Z, Z), Z, "dot", True),
                Cfg(p + "%sm%sssq" % (T, Z), Z, "ssq"), Cfg(p + "%samax_sub" % Z, Z, "max"), Cfg(p + "%samaxm_sub" % Z, Z, "maxm")]
    return out


def run_one(prog, cfg, fold, incs, world):
    """-> (results, stats)"""
    k = Kern(cfg, fold, incs, world)
    part = "fold=%s inc=%s %s" % (fold, ",".join("1" if i == 1 else "any" for i in incs), world)
    try:
        ip, outs = analyse(prog, k, cfg.fn, None, k.entry)
        for st, ret in outs:
            k.at_exit(st, ret)
        if not outs:
            k.viol.append((frozenset(("P01", "P04")), "no path returns", None, cfg.fn))
    except Stop:
        ip = k.ip
    return k, ip, part


OBLIGATIONS = (
    # tag, obligation, applies(cfg, world)
    ("P01", "every element in [0,N) is read once, at its own position, and its terms reach the result once", lambda c, w: not c.ismax),
    ("P02", "each level receives what the earlier levels left of the element with its low bit forced, compressed around the largest bin", lambda c, w: not c.ismax),
    ("P03", "accumulator updated with a bound of every element of the block, renormalised within the endurance, renormalised on return", lambda c, w: not c.ismax),
    ("P04", "bound taken over exactly the elements of the block", lambda c, w: not c.ismax),
    ("P04", "maximum of the absolute values of all elements, per component, no element beyond the vector", lambda c, w: c.ismax),
    ("P10", "NaN and infinite elements reach the head of their component, finite accumulators are not touched by them", lambda c, w: w == "exc"),
    ("P11", "every term goes to its own component", lambda c, w: c.cv == 2),
    ("P14", "reads inside the vectors, writes only the accumulator", lambda c, w: True),
    ("P15", "buffers and temporaries in bounds, initialised before use, freed once on every path", lambda c, w: not c.ismax),
    ("P17", "primary and carry cells addressed as the layout says", lambda c, w: not c.ismax),
    ("P18", "no writable global touched, control word restored on every path", lambda c, w: True),
    ("P21", "scale returned and used is the accumulator's scale", lambda c, w: c.scaled),
)


class KernTask:
    """one kernel, one fold, one choice of unit / other strides, in one instruction-set variant"""

    def __init__(s, prog, variant, cfg, fold, incs, world):
        s.prog, s.variant, s.cfg, s.fold, s.incs, s.world = prog, variant, cfg, fold, incs, world
        s.fn = cfg.fn
        s.part = "%s%s inc=%s %s" % (variant, "" if cfg.ismax else " fold=%s" % fold, ",".join("1" if i == 1 else "any" for i in incs), world)
        s.tags = frozenset(t for t, _, f in OBLIGATIONS if f(cfg, world))
        c = 3 if cfg.op == "dot" and cfg.cv == 2 else 2 if cfg.cv == 2 else 1
        s.cost = (1 if cfg.ismax else 10) * c * (1 if variant == "SISD" else 5) * (10 if world == "exc" and not cfg.ismax else 1)

    def run(s):
        from small import Result
        k, ip, part = run_one(s.prog, s.cfg, s.fold, s.incs, s.world)
        out = []
        if k.viol:
            for tags, msg, line, fn in k.viol:
                # a violation in one kernel breaks every property that speaks about the result of that kernel
                if s.world == "exc":
                    tags = tags | {"P10"}
                if tags & {"P01", "P02"}:
                    if s.cfg.cv == 2 and not s.cfg.ismax:
                        tags = tags | {"P11"}
                    if s.cfg.scaled:
                        tags = tags | {"P21"}
                if s.cfg.ismax and tags & {"P01"}:
                    tags = tags | {"P04"}
                out.append(Result(tags, s.fn, s.part, "kernel obligations", False, "%s%s: %s" % (fn, "" if line is None else ":%s" % line, msg)))
            return out
        st = k.stats
        d = "%d element loads, %d deposits, %d absorptions, %d bound/renorm/merge events followed symbolically, %d instructions" % (
            st["loads"], st["deposits"], st["absorb"], st["events"], ip.steps)
        for t, what, f in OBLIGATIONS:
            if f(s.cfg, s.world):
                out.append(Result(frozenset((t,)), s.fn, s.part, what, True, d))
        return out
