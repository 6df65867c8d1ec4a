"""What each primitive of src/binned must do, as tasks over partitions of its entry states."""
from fractions import Fraction
from poly import Poly, Atom, ZERO, ONE
from absint import (F, Ptr, Region, Cond, UNDEF, AnalysisBroken, fclass, frange, CInt, Bits, Opq, ilog2)
from small import Runner, PREC, REALOF, COMPS, TWO, isF0, Prec, Acc

NAN, INF = ("nan",), ("inf", 0)
Z = ("z",)


class Task:
    __slots__ = ("fn", "part", "tags", "go", "P", "prog")

    def __init__(s, P, fn, part, tags, go):
        s.P, s.fn, s.part, s.tags, s.go = P, fn, part, tags, go

    def run(s, prog=None):
        r = Runner(prog or s.prog, s.P, s.fn, s.part, s.tags)
        s.go(r)
        return r.results


class Depth:
    """how far partitions are enumerated"""

    def __init__(s, thorough):
        s.t = thorough

    def folds(s):
        return [2, 3, 4, 5, 7] if s.t else [2, 3, 4]

    def bins(s, P):
        if s.t:
            return list(range(P.maxindex + 1))
        return sorted({0, 1, 2, 3, P.maxindex // 2, P.maxindex - 2, P.maxindex - 1, P.maxindex})

    def fewbins(s, P):
        if s.t:
            return sorted({0, 1, 2, 3, 4, P.maxindex // 2, P.maxindex - 2, P.maxindex - 1, P.maxindex})
        return [0, 1, P.maxindex // 2, P.maxindex]


def comp_states(comps, states, other=("b", 5)):
    """component state tuples: each state in each component against a regular one, and in both"""
    if comps == 1:
        return [(x,) for x in states]
    out = []
    for x in states:
        for t in ((x, other), (other, x), (x, x)):
            if t not in out:
                out.append(t)
    return out


def forms(T):
    """(is_manual, infix letter) of the two accumulator layouts"""
    return ((True, "m"), (False, "b"))


def lbl(states):
    return "/".join("".join(map(str, x)) for x in states)


def total(P, v, cv, k):
    """value of a level: primary + carry * ufp/4"""
    return v.p + cv.p.scale(TWO ** (P.E(k) - 2))


# ---------------------------------------------------------------- tasks
def setzero_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        fn = "binned_%s%ssetzero" % (T, L)
        for fold in d.folds():
            for sts in comp_states(C, [("b", 4), Z, NAN]):
                def go(r, fold=fold, sts=sts, man=man):
                    a = r.acc("X", C, fold, sts, man, "w", "full")
                    outs = r.run(lambda ip, st: [Poly.const(fold)] + a.args())
                    for st, _ in outs or ():
                        for kind, j, c, _, _ in a.cells():
                            r.expect(st, a, kind, j, c, F(ZERO, prec=P.k))
                yield Task(P, fn, "fold=%d %s" % (fold, lbl(sts)), T_tags("P06", T, man), go)


def T_tags(base, T, man, extra=()):
    t = {base} | set(extra)
    if COMPS[T] == 2:
        t.add("P11")
    if not man:
        t |= {"P17", "P16"}
    return t


def set_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    srcs = [(T, C)] + ([(REALOF[T], 1)] if C == 2 else [])
    for man, L in forms(T):
        for S, SC in srcs:
            fn = "binned_%s%s%s%sset" % (T, L, S, L)
            for fold in d.folds():
                for sts in comp_states(SC, [("b", 4), Z, NAN, INF, ("b", 0)]):
                    def go(r, fold=fold, sts=sts, man=man, SC=SC):
                        x = r.acc("X", SC, fold, sts, man, "r", "full")
                        y = r.acc("Y", C, fold, [("b", 7)] * C, man, "w", "full")
                        outs = r.run(lambda ip, st: [Poly.const(fold)] + x.args() + y.args())
                        for st, _ in outs or ():
                            r.unchanged(st, x, tags={"P14"})
                            for c in range(C):
                                for j in range(fold):
                                    for k in "pc":
                                        w = x.val(r.ip, k, j, c) if c < SC else F(ZERO, prec=P.k)
                                        r.expect(st, y, k, j, c, w, tags=r.tags | ({"P10"} if sts[min(c, SC - 1)] in (NAN, INF) else set()))
                    yield Task(P, fn, "fold=%d X=%s" % (fold, lbl(sts)), T_tags("P06", T, man), go)


def negate_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        fn = "binned_%s%snegate" % (T, L)
        for fold in d.folds():
            sts = [("b", k) for k in (d.bins(P) if man else d.fewbins(P))] + [Z, NAN, INF]
            for st0 in comp_states(C, sts):
                def go(r, fold=fold, sts=st0, man=man):
                    a = r.acc("X", C, fold, sts, man, "rw", "norm")
                    outs = r.run(lambda ip, st: [Poly.const(fold)] + a.args())
                    for st, _ in outs or ():
                        for c in range(C):
                            if sts[c] == Z:
                                r.unchanged(st, a, [c])
                                continue
                            if sts[c] in (NAN, INF):
                                g = r.cell(st, *a.pri(0, c))
                                k = isinstance(g, F) and fclass(g)
                                r.ob("exceptional head", k and k[0] == sts[c][0] and (sts[c] == NAN or k[1] == 1), g, r.tags | {"P10"})
                                continue
                            for j in range(fold):
                                b = Poly.const(P.bin(sts[c][1] + j).__mul__(2))
                                pv = a.val(r.ip, "p", j, c)
                                r.expect(st, a, "p", j, c, F(b - pv.p, prec=P.k))
                                r.expect(st, a, "c", j, c, F(-a.val(r.ip, "c", j, c).p, prec=P.k))
                                g = r.cell(st, *a.pri(j, c))
                                r.ob("exact %d" % j, isinstance(g, F) and not g.inex, "negation is not exact")
                yield Task(P, fn, "fold=%d X=%s" % (fold, lbl(st0)), T_tags("P06", T, man), go)


def renormed(r, st, a, j, c, k, p0, c0, tags=None, what="renorm"):
    """cell (j,c) holds p0 with carry c0 brought into the window of bin k, value kept"""
    P = a.P
    got, car = r.cell(st, *a.pri(j, c)), r.cell(st, *a.car(j, c))
    if not isinstance(got, F) or not isinstance(car, F):
        r.ob("%s level %d" % (what, j), False, "no float in the cell: %s %s" % (r.show(got), r.show(car)), tags)
        return
    alts = [(got, car)]
    t = total(P, got, car, k)
    r.ob("%s level %d%s keeps its value" % (what, j, "ri"[c]), t == p0 + c0.scale(TWO ** (P.E(k) - 2)),
         "primary %s, carry %s" % (r.show(got), r.show(car)), tags)
    u = TWO ** P.E(k)
    rg = frange(got)
    r.ob("%s level %d%s window" % (what, j, "ri"[c]), rg and rg[0] >= u * Fraction(3, 2) and rg[1] < u * Fraction(7, 4),
         "primary left in %s" % (rg and tuple(float(x / u) for x in rg),), tags)
    r.ob("%s level %d%s exact" % (what, j, "ri"[c]), not got.inex, "inexact primary", tags)


def renorm_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        fn = "binned_%s%srenorm" % (T, L)
        for fold in d.folds():
            sts = [("b", k) for k in (d.bins(P) if man else d.fewbins(P))] + [Z, NAN, INF]
            for st0 in comp_states(C, sts):
                def go(r, fold=fold, sts=st0, man=man):
                    a = r.acc("X", C, fold, sts, man, "rw", "full")
                    outs = r.run(lambda ip, st: [Poly.const(fold)] + a.args())
                    for st, _ in outs or ():
                        for c in range(C):
                            if sts[c] in (Z, NAN, INF):
                                r.unchanged(st, a, [c], r.tags | ({"P10"} if sts[c] != Z else set()))
                                continue
                            for j in range(fold):
                                renormed(r, st, a, j, c, sts[c][1] + j, a.val(r.ip, "p", j, c).p, a.val(r.ip, "c", j, c).p)
                yield Task(P, fn, "fold=%d X=%s" % (fold, lbl(st0)), T_tags("P06", T, man, ("P03",)), go)


def elem(ip, P, name, kind):
    """element of a class: 'fin', 'nan', 'inf', 'zero', or ('norm', e, sign)"""
    if kind == "zero":
        return F(ZERO, prec=P.k)
    mx = TWO ** P.maxexp * (1 - TWO ** -P.mant)
    if kind == "fin":
        return F(Poly.atom(ip.opaque("elem", name, name=name, rng=(-mx, mx), cls=("fin",))), prec=P.k)
    if kind == "nan":
        return F(Poly.atom(ip.opaque("elem", name, name=name, cls=("nan",))), prec=P.k)
    if kind in ("inf", "-inf"):
        return F(Poly.atom(ip.opaque("elem", name, name=name, cls=("inf", 0 if kind == "inf" else 1))), prec=P.k)
    _, e, sg = kind
    lo, hi = TWO ** e, TWO ** (e + 1) - TWO ** (e - P.mant + 1)
    return F(Poly.atom(ip.opaque("elem", name, name=name, cls=("norm", e, sg), rng=(lo, hi) if sg == 0 else (-hi, -lo), g=e - P.mant + 1)), prec=P.k)


def updated(P, a, ip, c, k, fold):
    """specified (primary, carry, bin) list after updating component c of a with a bound of index k (None: bound 0)"""
    s = a.states[c]
    out = []
    if s in (NAN, INF):
        return None
    if s == Z:
        return [(F(Poly.const(P.bin(k + j)), prec=P.k), F(ZERO, prec=P.k)) for j in range(fold)]
    sh = max(0, s[1] - k)
    for j in range(fold):
        if j < sh:
            out.append((F(Poly.const(P.bin(k + j)), prec=P.k), F(ZERO, prec=P.k)))
        else:
            out.append((a.val(ip, "p", j - sh, c), a.val(ip, "c", j - sh, c)))
    return out


def bound_kinds(P, k, d):
    """element classes whose index is k"""
    es = P.rng_of_index(k)
    if k == P.maxindex:
        out = ["zero"]
    else:
        out = []
    if not es:
        return out
    pick = {es[0], es[-1]} if not d.t else {es[0], es[-1], es[len(es) // 2]}
    for e in sorted(pick):
        out.append(("norm", e - 1, 0))
    out.append(("norm", es[0] - 1, 1))
    return out


def update_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        for S in ([T] if C == 1 else [T, REALOF[T]]):
            fn = "binned_%s%s%supdate" % (T, L, S)
            SC = COMPS[S]
            for fold in d.folds():
                pairs = []
                for ky in (d.bins(P) if man and C == 1 else d.fewbins(P)):
                    shifts = {-3, -1, 0, 1, 2, fold - 1, fold, fold + 2, ky} if man or d.t else {0, 1, fold}
                    for sh in sorted(shifts):
                        kx = ky - sh
                        if 0 <= kx <= P.maxindex:
                            bk = bound_kinds(P, kx, d)
                            if not (man and C == 1):
                                bk = bk[:1]
                            for b in bk:
                                pairs.append((("b", ky), b, kx))
                for kx in d.fewbins(P):
                    for b in bound_kinds(P, kx, d)[:2]:
                        pairs += [(Z, b, kx), (NAN, b, kx), (INF, b, kx)]
                pairs.append((Z, "inf", 0))
                pairs.append((("b", 3), "inf", 0))
                for ys, b, kx in pairs:
                    if C == 1:
                        combos = [((ys,), (b,), (kx,))]
                    elif SC == 1:
                        o = ("b", max(kx, 1))
                        combos = [((ys, o), (b,), (kx, kx)), ((o, ys), (b,), (kx, kx))]
                    else:
                        ob, okx = bound_kinds(P, 4, d)[0], 4
                        o = ("b", 5)
                        combos = [((ys, o), (b, ob), (kx, okx)), ((o, ys), (ob, b), (okx, kx))]
                    for sts, bs, ks in combos:
                        def go(r, fold=fold, sts=sts, bs=bs, ks=ks, man=man, SC=SC):
                            y = r.acc("Y", C, fold, sts, man, "rw", "full")

                            def build(ip, st):
                                xs = [elem(ip, P, "x" + "ri"[i], b) for i, b in enumerate(bs)]
                                xa = xs[0] if SC == 1 else Ptr(r.scalar_region(ip, st, "X", xs), ZERO)
                                return [Poly.const(fold), xa] + y.args()
                            outs = r.run(build)
                            for st, _ in outs or ():
                                for c in range(C):
                                    w = updated(P, y, r.ip, c, ks[c], fold)
                                    if w is None:
                                        r.unchanged(st, y, [c], r.tags | {"P10"})
                                        continue
                                    for j in range(fold):
                                        r.expect(st, y, "p", j, c, w[j][0])
                                        r.expect(st, y, "c", j, c, w[j][1])
                        yield Task(P, fn, "fold=%d Y=%s X=%s" % (fold, lbl(sts), "/".join(map(str, bs))),
                                   T_tags("P05", T, man, ("P03",) if man else ()), go)


def deposited(ip, cl, P, cells, head, x):
    """specified primaries after depositing value form x (finite) into finite accumulator cells of head bin `head`"""
    out = []
    fold = len(cells)
    x = x.p
    for j in range(fold):
        a = cells[j].p
        xi = x.scale(P.comp) if head == 0 and j == 0 else x
        R = cl.rnd(ip, a, xi, P.k)
        out.append(F(a + R, prec=P.k))
        x = x - (R.scale(P.exp) if head == 0 and j == 0 else R)
    return out


def deposit_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        fn = "binned_%s%s%sdeposit" % (T, L, T)
        for fold in d.folds():
            sts = [("b", k) for k in ([0, 1, 2, P.maxindex] if not d.t else d.bins(P))] + [NAN, INF]
            for ys in sts:
                for xk in ("fin", "nan", "inf", "-inf"):
                    if C == 1:
                        combos = [((ys,), (xk,))]
                    else:
                        o = ("b", 5)
                        combos = [((ys, o), (xk, "fin")), ((o, ys), ("fin", xk)), ((ys, ys), (xk, xk))]
                        if ys[0] == "b" and xk != "fin":
                            combos.append(((ys, NAN), (xk, "fin")))
                    for ss, xs in combos:
                        def go(r, fold=fold, sts=ss, xk=xs, man=man):
                            y = r.acc("Y", C, fold, sts, man, "rw", "norm")

                            def build(ip, st):
                                v = [elem(ip, P, "x" + "ri"[i], b) for i, b in enumerate(xk)]
                                xa = v[0] if C == 1 else Ptr(r.scalar_region(ip, st, "X", v), ZERO)
                                return [Poly.const(fold), xa] + y.priargs()
                            outs = r.run(build, caraccess=not man)
                            for st, _ in outs or ():
                                for c in range(C):
                                    x = elem(r.ip, P, "x" + "ri"[c], xk[c])
                                    cells = [y.val(r.ip, "p", j, c) for j in range(fold)]
                                    if xk[c] != "fin" or sts[c] in (NAN, INF):
                                        tg = r.tags | {"P10"}
                                        g = r.cell(st, *y.pri(0, c))
                                        w = r.ip.fdefault(st, "fadd", cells[0], x)
                                        same = isinstance(g, F) and (g == w or fclass(g) == fclass(w) == ("nan",))
                                        r.ob("exceptional head%s" % "ri"[c], same, "got %s want %s" % (r.show(g), r.show(w)), tg)
                                        for j in range(1, fold):
                                            r.expect(st, y, "p", j, c, cells[j], "untouched level %d" % j, tg)
                                        continue
                                    w = deposited(r.ip, r.client, P, cells, sts[c][1], x)
                                    for j in range(fold):
                                        r.expect(st, y, "p", j, c, w[j], "deposit level %d%s" % (j, "ri"[c]))
                        yield Task(P, fn, "fold=%d Y=%s X=%s" % (fold, lbl(ss), "/".join(xs)), T_tags("P02", T, man), go)


def add_tasks(T, d):
    """add of a scalar and conversion of a scalar: update, deposit, renormalise"""
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        for op in ("add", "conv"):
            fn = "binned_%s%s%s%s" % (T, L, T, op)
            for fold in d.folds():
                cases = []
                for kx in d.fewbins(P):
                    for b in bound_kinds(P, kx, d)[:2]:
                        if op == "conv":
                            cases.append((Z, b, kx))
                        else:
                            for dy in (-2, 0, 1, fold):
                                if 0 <= kx + dy <= P.maxindex:
                                    cases.append((("b", kx + dy), b, kx))
                            cases += [(Z, b, kx)]
                cases += [(Z, "nan", None), (("b", 2), "nan", None), (("b", 2), "inf", None)] if op == "add" else [(Z, "nan", None), (Z, "-inf", None)]
                if op == "add":
                    cases += [(NAN, bound_kinds(P, 3, d)[0], 3), (INF, bound_kinds(P, 3, d)[0], 3)]
                for ys, b, kx in cases:
                    if C == 1:
                        combos = [((ys,), (b,), (kx,))]
                    else:
                        o, ob = (Z if op == "conv" else ("b", 5)), bound_kinds(P, 5, d)[0]
                        combos = [((ys, o), (b, ob), (kx, 5)), ((o, ys), (ob, b), (5, kx))]
                    for ss, bs, ks in combos:
                        def go(r, fold=fold, sts=ss, bs=bs, ks=ks, man=man, op=op):
                            y = r.acc("Y", C, fold, [("b", 6)] * C if op == "conv" else sts, man, "rw", "norm")

                            def build(ip, st):
                                v = [elem(ip, P, "x" + "ri"[i], q) for i, q in enumerate(bs)]
                                xa = v[0] if C == 1 else Ptr(r.scalar_region(ip, st, "X", v), ZERO)
                                return [Poly.const(fold), xa] + y.args()
                            outs = r.run(build)
                            spec = Acc("Y", P, C, fold, sts, man, "norm")
                            for st, _ in outs or ():
                                for c in range(C):
                                    x = elem(r.ip, P, "x" + "ri"[c], bs[c])
                                    if bs[c] in ("nan", "inf", "-inf") or sts[c] in (NAN, INF):
                                        g = r.cell(st, *y.pri(0, c))
                                        h = spec.val(r.ip, "p", 0, c)
                                        k = isinstance(g, F) and fclass(g)
                                        want = "nan" if "nan" in (bs[c], sts[c][0]) else "inf"
                                        r.ob("exceptional head%s" % "ri"[c], k and k[0] == want, "got %s" % r.show(g), r.tags | {"P10"})
                                        continue
                                    if bs[c] == "zero" and op == "conv":
                                        pass
                                    w = updated(P, spec, r.ip, c, ks[c], fold)
                                    k0 = ks[c] if sts[c] == Z else min(ks[c], sts[c][1])
                                    dep = deposited(r.ip, r.client, P, [q[0] for q in w], k0, x)
                                    for j in range(fold):
                                        renormed(r, st, y, j, c, k0 + j, dep[j].p, w[j][1].p, what="add")
                        yield Task(P, fn, "fold=%d Y=%s X=%s" % (fold, lbl(ss), "/".join(map(str, bs))),
                                   T_tags("P06", T, man, ("P02", "P05") if man else ()), go)


def madd_spec(r, st, y, x, yv, xv, c, P, fold, tags=None, ratio=1):
    """component c of y must hold y+x. yv/xv: Acc giving entry values"""
    sx, sy = xv.states[c], yv.states[c]
    V = lambda a, k, j: a.val(r.ip, k, j, c)
    if sx == Z:
        return r.unchanged(st, y, [c], tags)
    if sy == Z:
        for j in range(fold):
            r.expect(st, y, "p", j, c, V(xv, "p", j), "copy", tags)
            r.expect(st, y, "c", j, c, V(xv, "c", j), "copy", tags)
        return
    if sx in (NAN, INF) or sy in (NAN, INF):
        g = r.cell(st, *y.pri(0, c))
        w = r.ip.fdefault(st, "fadd", V(yv, "p", 0), V(xv, "p", 0))
        fg = isinstance(g, F) and fclass(g)
        want = "nan" if NAN in (sx, sy) else "inf"
        tg = (tags or r.tags) | {"P10"}
        r.ob("exceptional head%s" % "ri"[c], g == w or fg and fg[0] == want, "got %s" % r.show(g), tg)
        return
    k = min(sx[1], sy[1])
    for j in range(fold):
        p, q, n = ZERO, ZERO, 0
        for a, s in ((xv, sx), (yv, sy)):
            i = j + k - s[1]
            if i >= 0:
                p = p + V(a, "p", i).p
                q = q + V(a, "c", i).p
                n += 1
        p = p - (n - 1) * P.bin(k + j)
        got = r.cell(st, *y.pri(j, c))
        if n == 1 and isinstance(got, F) and got.p == p:
            r.expect(st, y, "c", j, c, F(q, prec=P.k), "single level %d" % j, tags)
            continue
        renormed(r, st, y, j, c, k + j, p, q, tags, "sum")


def madd_pairs(P, d, fold, few):
    out = []
    ks = d.fewbins(P) if few else d.bins(P)
    for ky in ks:
        shifts = {-fold - 1, -fold, 1 - fold, -1, 0, 1, fold - 1, fold, fold + 1}
        if few and not d.t:
            shifts = {-fold, -1, 0, 1, fold - 1}
        for s in sorted(shifts):
            if 0 <= ky + s <= P.maxindex:
                out.append((("b", ky), ("b", ky + s)))
    return out


def madd_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        fn = "binned_%s%s%s%sadd" % (T, L, T, L)
        for fold in d.folds():
            pairs = madd_pairs(P, d, fold, not man or C == 2)
            for e in (Z, NAN, INF):
                pairs += [(e, ("b", 3)), (("b", 3), e), (e, e)]
            pairs += [(Z, NAN), (NAN, Z), (NAN, INF), (INF, NAN), (INF, ("inf", 1))]
            for sy, sx in pairs:
                o = (("b", 4), ("b", 5))
                combos = [((sy,), (sx,))] if C == 1 else [((sy, o[0]), (sx, o[1])), ((o[0], sy), (o[1], sx))]
                for ys, xs in combos:
                    def go(r, fold=fold, ys=ys, xs=xs, man=man):
                        x = r.acc("X", C, fold, xs, man, "r")
                        y = r.acc("Y", C, fold, ys, man, "rw")
                        outs = r.run(lambda ip, st: [Poly.const(fold)] + x.args() + y.args())
                        for st, _ in outs or ():
                            r.unchanged(st, x, tags={"P14"})
                            for c in range(C):
                                if {ys[c], xs[c]} == {INF, ("inf", 1)}:
                                    continue
                                madd_spec(r, st, y, x, y, x, c, P, fold)
                    yield Task(P, fn, "fold=%d Y=%s X=%s" % (fold, lbl(ys), lbl(xs)), T_tags("P06", T, man), go)


def fconv_spec(P, a, ip, c, fold):
    """exact linear form of the value of component c"""
    k = a.states[c][1]
    t = ZERO
    for j in range(fold):
        b = P.bin(k + j)
        w = P.exp if k + j == 0 else 1
        t = t + (a.val(ip, "p", j, c).p - b).scale(w) + a.val(ip, "c", j, c).p.scale(b / 6 * w)
    return t


def lineq(p, q, P):
    """equal up to roundings of the constants themselves (bins/6 and the like are rounded once)"""
    d = p - q
    eps = TWO ** (3 - 24 if P.r == "s" else 4 - P.mant)
    for k, v in d.d.items():
        ref = q.d.get(k)
        if ref is None:
            if k == ():
                m = max([abs(x) for x in q.d.values()] or [1])
                if abs(v) > abs(m) * eps:
                    # constant: compare against the largest bin constant
                    return False
                continue
            return False
        if abs(v) > abs(ref) * eps:
            return False
    return True


def conv_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    for man, L in forms(T):
        fn = "binned_%s%s%sconv%s" % (T, T, L, "_sub" if C == 2 else "")
        for fold in d.folds() + ([6, 9] if d.t else [6]):
            sts = [("b", k) for k in d.bins(P)] + [Z, NAN, INF, ("inf", 1)]
            for ss in comp_states(C, sts):
                def go(r, fold=fold, sts=ss, man=man):
                    a = r.acc("X", C, fold, sts, man, "r", "full")

                    def build(ip, st):
                        args = [Poly.const(fold)] + a.args()
                        if C == 2:
                            r.out = r.scalar_region(ip, st, "conv", [UNDEF, UNDEF], "w", init=False)
                            args.append(Ptr(r.out, ZERO))
                        return args
                    r.client.check_overflow = False      # a value beyond the format's range may overflow on the way out
                    r.client.assume = lambda st, c: conv_assume(st, c)
                    r.client.key = lambda st, b: frozenset(st.ghost.flags)
                    outs = r.run(build)
                    for st, ret in outs or ():
                        r.unchanged(st, a, tags={"P14"})
                        for c in range(C):
                            g = ret if C == 1 else r.cell(st, r.out, Poly.const(P.es * c))
                            s = sts[c]
                            if s == Z:
                                r.ob("zero", isF0(g), "got %s" % r.show(g))
                                continue
                            if s[0] in ("nan", "inf"):
                                w = a.val(r.ip, "p", 0, c)
                                r.ob("exceptional value%s" % "ri"[c], g == w, "got %s" % r.show(g), r.tags | {"P10"})
                                continue
                            if not isinstance(g, F):
                                r.ob("value", False, "no float result: %s" % r.show(g))
                                continue
                            if "overflowed" in st.ghost.flags:
                                continue
                            w = fconv_spec(P, a, r.ip, c, fold)
                            p = strip_round(g)
                            r.ob("value%s" % "ri"[c], lineq(p, w, P), "got %s, specified %s" % (p - w, w))
                yield Task(P, fn, "fold=%d X=%s" % (fold, lbl(ss)), T_tags("P07", T, man), go)


def strip_round(g):
    """drop the final rounding to the narrower format"""
    a = g.p.single()
    if a is not None and a.info and a.info[0] == "fptrunc":
        return a.info[1]
    return g.p


def conv_assume(st, c):
    # "isinf(partial result)" taken: the result has overflowed, nothing more can change it
    t, truth = c, True
    while isinstance(t, Cond) and t.op == "not":
        t, truth = t.a[0], not truth
    if isinstance(t, Cond):
        if t.op == "cls" and "inf" in t.a[1] and truth and "norm" not in t.a[1]:
            st.ghost.flags.add("overflowed")
        if t.op == "f" and truth and t.a[0] in ("oeq", "ueq"):
            for u in t.a[1:]:
                k = fclass(u)
                if k and k[0] == "inf":
                    st.ghost.flags.add("overflowed")
    return True


def size_tasks(T, d):
    P = PREC[REALOF[T]]
    C = COMPS[T]
    n = 2 * C
    names = {"size": ("binned_%sbsize" % T if T != "s" else "binned_sbsbze"), "num": "binned_%sbnum" % T, "alloc": "binned_%sballoc" % T}
    for what, fn in names.items():
        def go(r, what=what):
            f = Atom("fold", lo=1, hi=P.maxfold, nz=True)
            outs = r.run(lambda ip, st: [Poly.atom(f)])
            want = Poly.atom(f).scale(n * (P.es if what != "num" else 1))
            for st, ret in outs or ():
                if what == "alloc":
                    ok = isinstance(ret, Ptr) and ret.r.kind == "heap" and ret.o == ZERO
                    sz = [x[1] for x in r.client.allocs if ok and x[0] is ret.r]
                    r.ob("allocated size", ok and sz and sz[0] == want, "allocates %s, needs %s" % (sz, want), {"P15", "P17"})
                else:
                    r.ob(what, ret == want, "returns %s, layout needs %s" % (ret, want))
        yield Task(P, fn, "fold symbolic", {"P17", "P15"}, go)


class IdxRunner:
    pass


def index_tasks(R, d):
    """index functions, table, scale and ufp: one task per function, all exponents inside"""
    P = PREC[R]
    M = P.mant - 1

    def const_ret(r, fn, args_of, want, label, tags):
        rr = Runner(r.prog, P, fn, label, tags)
        outs = rr.run(args_of)
        ok = bool(outs)
        for st, ret in outs or ():
            if isinstance(ret, bool):
                ret = Poly.const(int(ret))
            good = want(ret)
            rr.ob("value", good, "%s gives %s" % (label, rr.show(ret)))
        r.results += rr.results

    exps = range(P.minexp, P.maxexp + 1)

    def go_index(r):
        fn = "binned_%sindex" % R
        for e in exps:
            for sg in (0, 1):
                k = min((P.maxexp - e) // P.W, P.maxindex)
                const_ret(r, fn, lambda ip, st: [elem(ip, P, "x", ("norm", e - 1, sg))], lambda v: v == Poly.const(k),
                          "2^%d sign %d" % (e - 1, sg), r.tags)
        const_ret(r, fn, lambda ip, st: [F(ZERO, prec=P.k)], lambda v: v == Poly.const(P.maxindex), "zero", r.tags)
        for q in ("inf", "-inf"):
            const_ret(r, fn, lambda ip, st: [elem(ip, P, "x", q)], lambda v: v == Poly.const(0), q, r.tags | {"P10"})
        # subnormals: every exponent below the normal range, given by a representative power of two and its neighbours
        for e in range(P.minexp - P.mant + 1, P.minexp):
            for v in (TWO ** (e - 1), TWO ** (e - 1) + (TWO ** (P.minexp - P.mant) if e > P.minexp - P.mant + 1 else 0)):
                k = min((P.maxexp - e) // P.W, P.maxindex)
                const_ret(r, fn, lambda ip, st: [F(Poly.const(v), prec=P.k)], lambda q: q == Poly.const(k), "subnormal 2^%d" % (e - 1), r.tags)
    yield Task(P, "binned_%sindex" % R, "all exponents", {"P08"}, go_index)

    def head(ip, st, r, k, w):
        a = Acc("X", P, 1, 1, [("b", k)], True, w)
        reg = r.scalar_region(ip, st, "priX", [a.val(ip, "p", 0, 0)])
        return reg

    for fn, want in (("binned_%smindex" % R, lambda k: k), ("binned_%smindex0" % R, lambda k: int(k == 0))):
        def go(r, fn=fn, want=want):
            for k in range(P.maxindex + 1):
                rr = Runner(r.prog, P, fn, "bin %d" % k, r.tags)
                outs = rr.run(lambda ip, st: [Ptr(head(ip, st, rr, k, "full"), ZERO)])
                for st, ret in outs or ():
                    if fn.endswith("0"):
                        if isinstance(ret, (bool,)):
                            ret = Poly.const(int(ret))
                        ok = isinstance(ret, Poly) and ret.is_const() and (ret.cval() != 0) == bool(want(k))
                    else:
                        ok = ret == Poly.const(want(k))
                    rr.ob("index of bin %d" % k, ok, "returns %s" % rr.show(ret))
                r.results += rr.results
        yield Task(P, fn, "all bins", {"P08", "P05"} if not fn.endswith("0") else {"P08", "P02"}, go)

    def prep(st, f, args):
        n = st.copy()
        n.env = {nm: v for (nm, ty), v in zip(f.args, args)}
        n.ctx = ()
        return n

    def go_bins(r):
        fn = "binned_%smbins" % R
        for second in (False, True):
            for k in range(P.maxindex + 1):
                if k > 3 and k < P.maxindex - 2 and second:
                    continue
                rr = Runner(r.prog, P, fn, "index %d%s" % (k, " second call" if second else ""), r.tags)

                def build(ip, st):
                    if second:
                        f = ip.prog.lookup(fn)
                        ip.stack = [f]
                        outs = ip.run(f, prep(st, f, [Poly.const(0)]))
                        assert len(outs) == 1
                        o = outs[0][0]
                        st.mem.clear()
                        st.mem.update(o.mem)
                        st.own.clear()
                    return [Poly.const(k)]
                outs = rr.run(build)
                for st, ret in outs or ():
                    if not isinstance(ret, Ptr):
                        rr.ob("table pointer", False, rr.show(ret))
                        continue
                    for j in range(P.maxfold if k in (0, P.maxindex) or d.t else 4):
                        rr.ip.stack = [rr.ip.prog.lookup(fn)]
                        from ir import DBL, FLT
                        g = rr.ip.load(st, Ptr(ret.r, ret.o + P.es * j), DBL if R == "d" else FLT, None)
                        want = F(Poly.const(P.bin(k + j)))
                        rr.ob("bins[%d+%d]" % (k, j), isinstance(g, F) and g == want, "table holds %s" % rr.show(g))
                r.results += rr.results
    yield Task(P, "binned_%smbins" % R, "all indexes", {"P08", "P18"}, go_bins)

    def go_scale(r):
        fn = "binned_%sscale" % R
        for e in exps:
            def want(v):
                if not (isinstance(v, F) and v.p.is_const() and v.p.cval() > 0):
                    return False
                q = v.p.cval()
                x = ilog2(q)
                # a power of 2^W less than one bin width away from the value (tiny values: from the smallest such scale)
                return q == TWO ** x and x % P.W == 0 and abs(x - max(e - 1, P.W + P.minexp - 2)) < P.W
            for sg in (0, 1):
                const_ret(r, fn, lambda ip, st: [elem(ip, P, "x", ("norm", e - 1, sg))], want, "2^%d" % (e - 1), r.tags)
        # all scales differ by powers of 2^W
        vals = []
        for e in list(exps):
            rr = Runner(r.prog, P, fn, "grid", r.tags)
            outs = rr.run(lambda ip, st: [elem(ip, P, "x", ("norm", e - 1, 0))])
            for st, ret in outs or ():
                if isinstance(ret, F) and ret.p.is_const() and ret.p.cval() > 0:
                    vals.append(ilog2(ret.p.cval()))
        r.ob("scales lie on one grid of the bin width", len({v % P.W for v in vals}) == 1 and vals, sorted({v % P.W for v in vals}))
        r.ob("scale is monotone in the exponent", vals == sorted(vals), "")
        for v in ("zero",):
            rr = Runner(r.prog, P, fn, "zero", r.tags)
            outs = rr.run(lambda ip, st: [F(ZERO, prec=P.k)])
            for st, ret in outs or ():
                rr.ob("scale of zero", isinstance(ret, F) and ret.p.is_const() and ret.p.cval() > 0, rr.show(ret))
            r.results += rr.results
    yield Task(P, "binned_%sscale" % R, "all exponents", {"P08", "P21"}, go_scale)

    def go_ufp(r):
        fn = "binned_ufp" + ("f" if R == "s" else "")
        for e in exps:
            for sg in (0, 1):
                w = TWO ** (e - 1)
                const_ret(r, fn, lambda ip, st: [elem(ip, P, "x", ("norm", e - 1, sg))],
                          lambda v: isinstance(v, F) and v.p == Poly.const(w), "2^%d sign %d" % (e - 1, sg), r.tags)
        const_ret(r, fn, lambda ip, st: [F(ZERO, prec=P.k)], isF0, "zero", r.tags)
    yield Task(P, "binned_ufp" + ("f" if R == "s" else ""), "all exponents", {"P08"}, go_ufp)


def rescale_tasks(T, d):
    """{dmd,zmd}rescale: Y carried from scaleY to X, both powers 2^(W*m)"""
    P = PREC[REALOF[T]]
    C = COMPS[T]
    R = REALOF[T]
    fn = "binned_%sm%srescale" % (T, R)
    for fold in d.folds():
        cases = []
        mid = P.maxindex // 2
        for m in (0, 1, 2, 3):
            for ky in (mid, mid - 1, mid + 1) + ((0, 1, 2) if m == 0 else (2,)):
                if ky + fold - 1 + 2 * m <= P.maxindex:
                    cases.append((("b", ky), m))
            cases.append((Z, m))
            cases += [(NAN, m), (INF, m)]
        # levels that fall below the last bin are emptied, the rest of them too
        for ky, m in ((P.maxindex - fold + 1, 3), (mid, P.maxindex - mid), (P.maxindex - 1, 1), (P.maxindex - 2, 1), (mid, (P.maxindex - mid + 1) // 2), (mid, (P.maxindex - mid) // 2)):
            if ky + fold - 1 <= P.maxindex and (("b", ky), m) not in cases:
                cases.append((("b", ky), m))
        for ys, m in cases:
            o = ("b", mid)
            for ss in ([(ys,)] if C == 1 else [(ys, o), (o, ys), (ys, ys)]):
                def go(r, fold=fold, sts=ss, m=m):
                    y = r.acc("Y", C, fold, sts, True, "rw", "norm")
                    sy = TWO ** 0
                    sx = TWO ** (P.W * m)
                    outs = r.run(lambda ip, st: [Poly.const(fold), F(Poly.const(sx), prec=P.k), F(Poly.const(sy), prec=P.k)] + y.args())
                    for st, _ in outs or ():
                        rescaled(r, st, y, y, m, P, fold, C)
                yield Task(P, fn, "fold=%d Y=%s ratio=2^%d" % (fold, lbl(ss), P.W * m), T_tags("P21", T, True), go)
        for sx, sy in ((0, 1), (1, 0)):
            def go(r, fold=fold, sx=sx, sy=sy):
                y = r.acc("Y", C, fold, [("b", 5)] * C, True, "rw", "norm")
                outs = r.run(lambda ip, st: [Poly.const(fold), F(Poly.const(sx), prec=P.k), F(Poly.const(sy), prec=P.k)] + y.args())
                for st, _ in outs or ():
                    r.unchanged(st, y)
            yield Task(P, fn, "fold=%d zero scale %d %d" % (fold, sx, sy), T_tags("P21", T, True), go)


def emptied(r, P, g):
    return isF0(g) or isinstance(g, F) and g.p.is_const() and g.p.cval() in [P.bin(k) for k in range(P.maxindex + 1)]


def rescaled(r, st, y, yv, m, P, fold, C):
    for c in range(C):
        s = yv.states[c]
        if s == Z:
            # still represents zero: head zero or empty bins
            for j in range(fold):
                g, q = r.cell(st, *y.pri(j, c)), r.cell(st, *y.car(j, c))
                if j == 0:
                    empty = isinstance(g, F) and g.p.is_const() and g.p.cval() in [P.bin(k) for k in range(P.maxindex + 1)]
                    if isF0(g):
                        r.ob("zero stays zero", True)
                        break
                    r.ob("zero stays zero%s" % "ri"[c], empty, "head became %s" % r.show(g))
                else:
                    empty = isinstance(g, F) and g.p.is_const() and g.p.cval() in [P.bin(k) for k in range(P.maxindex + 1)]
                    r.ob("zero stays empty%s %d" % ("ri"[c], j), empty, "level became %s" % r.show(g))
                r.ob("zero carry%s %d" % ("ri"[c], j), isF0(q), "carry %s" % r.show(q))
            continue
        if s in (NAN, INF):
            g = r.cell(st, *y.pri(0, c))
            k = isinstance(g, F) and fclass(g)
            r.ob("exceptional head%s" % "ri"[c], k and k[0] == s[0], "got %s" % r.show(g), r.tags | {"P10"})
            continue
        f = TWO ** (-2 * P.W * m)
        for j in range(fold):
            if Fraction(7, 4) * TWO ** (P.E(s[1] + j) - 2 * P.W * m) <= P.denorm / 2:
                r.ob("emptied level %d%s" % (j, "ri"[c]), emptied(r, P, r.cell(st, *y.pri(j, c))), "level became %s" % r.show(r.cell(st, *y.pri(j, c))))
                r.ob("emptied carry %d%s" % (j, "ri"[c]), isF0(r.cell(st, *y.car(j, c))), "carry %s" % r.show(r.cell(st, *y.car(j, c))))
                continue
            if s[1] + 2 * m + j > P.maxindex:
                continue        # between the last bin and zero: what is left of it is rounded to the smallest unit
            r.expect(st, y, "p", j, c, F(yv.val(r.ip, "p", j, c).p.scale(f), prec=P.k), "rescaled level %d%s" % (j, "ri"[c]))
            r.expect(st, y, "c", j, c, yv.val(r.ip, "c", j, c), "carry %d%s" % (j, "ri"[c]))


def maddsq_tasks(R, d):
    P = PREC[R]
    mid = P.maxindex // 2
    for man, L in forms(R):
        fn = "binned_%s%s%s%saddsq" % (R, L, R, L)
        for fold in d.folds():
            for mx, my in ((0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1)):
                for sx, sy in ((("b", mid), ("b", mid)), (("b", mid + 1), ("b", mid)), (("b", mid), ("b", mid + 1)), (Z, ("b", mid)), (("b", mid), Z),
                               (NAN, ("b", mid)), (("b", mid), NAN)):
                    def go(r, fold=fold, sx=sx, sy=sy, mx=mx, my=my, man=man):
                        x = r.acc("X", 1, fold, [sx], man, "r")
                        y = r.acc("Y", 1, fold, [sy], man, "rw")
                        vx, vy = TWO ** (P.W * mx), TWO ** (P.W * my)

                        def build(ip, st):
                            return [Poly.const(fold), F(Poly.const(vx), prec=P.k)] + x.args() + [F(Poly.const(vy), prec=P.k)] + y.args()
                        outs = r.run(build)
                        m = max(mx, my)
                        for st, ret in outs or ():
                            r.unchanged(st, x, tags={"P14"})
                            r.ob("returned scale", isinstance(ret, F) and ret.p == Poly.const(TWO ** (P.W * m)), "returns %s" % r.show(ret))
                            xs = Shifted(x, m - mx)
                            ys = Shifted(y, m - my)
                            if sx == Z and sy != Z and m != my:
                                if sy != NAN:
                                    rescaled(r, st, y, y, m - my, P, fold, 1)
                                continue
                            if sy == Z:
                                # y was empty: result is x (possibly through an empty renormalised accumulator)
                                for j in range(fold):
                                    g = r.cell(st, *y.pri(j, 0))
                                    if isinstance(g, F) and g == xs.val(r.ip, "p", j, 0):
                                        r.expect(st, y, "c", j, 0, xs.val(r.ip, "c", j, 0))
                                    else:
                                        renormed(r, st, y, j, 0, xs.states[0][1] + j, xs.val(r.ip, "p", j, 0).p, xs.val(r.ip, "c", j, 0).p)
                                continue
                            if sx == Z and m != mx:
                                # x was empty and rescaled to empty bins: y keeps its value
                                for j in range(fold):
                                    g = r.cell(st, *y.pri(j, 0))
                                    if isinstance(g, F) and g == y.val(r.ip, "p", j, 0):
                                        r.expect(st, y, "c", j, 0, y.val(r.ip, "c", j, 0))
                                    else:
                                        renormed(r, st, y, j, 0, sy[1] + j, y.val(r.ip, "p", j, 0).p, y.val(r.ip, "c", j, 0).p)
                                continue
                            madd_spec(r, st, y, x, ys, xs, 0, P, fold)
                    yield Task(P, fn, "fold=%d X=%s*2^%d Y=%s*2^%d" % (fold, lbl([sx]), P.W * mx, lbl([sy]), P.W * my),
                               T_tags("P21", R, man), go)


class Shifted:
    """entry values of an accumulator after an exact rescaling by m bins pairs"""

    def __init__(s, a, m):
        s.a, s.m, s.P = a, m, a.P
        s.states = [("b", q[1] + 2 * m) if q[0] == "b" else q for q in a.states]

    def val(s, ip, kind, j, c):
        v = s.a.val(ip, kind, j, c)
        if kind == "p" and s.m:
            return F(v.p.scale(TWO ** (-2 * s.P.W * s.m)), prec=v.prec)
        return v


GROUPS = {
    "setzero": setzero_tasks, "set": set_tasks, "negate": negate_tasks, "renorm": renorm_tasks, "update": update_tasks,
    "deposit": deposit_tasks, "add": add_tasks, "madd": madd_tasks, "conv": conv_tasks, "size": size_tasks, "rescale": rescale_tasks,
}
REALGROUPS = {"index": index_tasks, "maddsq": maddsq_tasks}


def all_tasks(d, types="dzsc", groups=None):
    for T in types:
        for n, g in GROUPS.items():
            if groups and n not in groups:
                continue
            for t in g(T, d):
                yield n, t
        if T in REALGROUPS or T in "ds":
            for n, g in REALGROUPS.items():
                if groups and n not in groups:
                    continue
                for t in g(T, d):
                    yield n, t
