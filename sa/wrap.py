"""Rules over loop-nest summaries: reproducible matrix drivers, wrapper families, element-wise accumulator loops, MPI operators and datatypes."""
import re
from poly import Atom, Poly, ZERO, ONE
import summ
from summ import Ptr, Base, Fn, Undecided, Node, deep_atoms
import mat
from mat import Bad, Var, Rules, SummTask, Contracts, ELT, COMP, KIND, flatten, nodevar, collapse, atomsof, scalar, event, run_rule, where
from small import Result


def order_of(S):
    """flattened events with their position"""
    out = []
    for i, (n, ls) in enumerate(flatten(S.body)):
        out.append((i, n, ls))
    return out


def conv_node(p):
    """p is exactly the result of a conversion -> (node, component)"""
    if isinstance(p, Poly) and len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0].info is not None and m[0].info[0] == "conv":
            return m[0].info[1], m[0].info[2]
    return None, None


REAL = {"d": "d", "z": "d", "s": "s", "c": "s"}


def part_of(R, n, comp, dst):
    """the component a store of conversion n's result at dst is for"""
    m = re.match(r"binned_([dszc])\1mconv", n.name)
    if R.c == 2 and m and m.group(1) == REAL[R.T]:
        return int(dst.off.d.get((), 0)) % (2 * R.e) // R.e
    return comp


def conv_acc(R, n, fold, comp=None):
    """a from-accumulator conversion event -> (Ptr of the packed accumulator it reads, component it yields)"""
    m = re.match(r"binned_([dszc])\1mconv(_sub)?$", n.name)
    if m and R.c == 2 and m.group(1) == REAL[R.T] and n.args[0] == fold:
        # one component of a complex accumulator read as a real one
        pri, ip, car, ic = n.args[1:5]
        two = Poly.const(2)
        if ip == two and ic == two and isinstance(pri, Ptr) and isinstance(car, Ptr) and car.base is pri.base and car.off - pri.off == fold * (R.e * 2):
            return Ptr(pri.base, pri.off - (comp or 0) * R.e), None
    if not m or m.group(1) != R.T:
        raise Bad("P16 P13", "%s is used to read a result of type %s" % (n.name, R.T), n.line)
    if n.args[0] != fold:
        raise Bad("P16", "fold %r instead of %r" % (n.args[0], fold), n.line)
    return R.acc(*n.args[1:5], fold=fold), 0


def region(R, n, ls):
    """bytes written by a fill inside loops, when they are one contiguous range -> (start, length)"""
    off, ln = n.args[0].off, n.args[1]
    if not ls:
        return off, ln
    L, (off, ln) = collapse([nodevar(l) for l in ls], (off, ln), R.at)
    left = list(L)
    while left:
        for v in left:
            if v.step != 1 or len(v.his) != 1 or atomsof(v.lo, v.his[0], ln) & {w.a for w in L}:
                continue
            z = mat.sub_any(off, {v.a: ZERO}, R.at)
            k = mat.sub_any(off, {v.a: ONE}, R.at) - z
            if off == z + k * Poly.atom(v.a) and k == ln:
                off, ln = z + k * mat.P_(v.lo), ln * (mat.P_(v.his[0]) - mat.P_(v.lo))
                left.remove(v)
                break
        else:
            raise Undecided("zeroing in a loop")
    return off, ln


# ---------------------------------------------------------------- reproducible matrix drivers
def rgem(kind):
    def rule(R, a, ret):
        S = R.S
        fold = a["fold"]
        names = ("fold Order TransA M N alpha A lda X incX" if kind == "v" else "fold Order TransA TransB M N K alpha A lda B ldb").split()
        alpha, beta = scalar(R, a["alpha"]), scalar(R, a["beta"])
        M, N = a["M"], a["N"]
        out, inc = (a["Y"], a["incY"]) if kind == "v" else (a["C"], a["ldc"])
        mat.positive(R, a, "MN" if kind == "v" else "MNK")
        nodes = order_of(S)
        if R.empty((M, N)):
            for _, n, _ in nodes:
                if n.kind in ("store", "fill", "copy") and R.dest(n).base is out.base or n.kind == "call":
                    raise Bad("P13 P14", "something is done for an empty output", n.line)
            R.memory({out.base})
            return
        # what the operation must be
        nt = R.char_in(a["TransA"], "nN") if kind == "v" else None
        row = R.char_in(a["Order"], "rR")
        if kind == "v":
            dims = [M if nt else N]
        else:
            dims = [M, N]
        vs = [Atom("ij"[k], info=("var",)) for k in range(len(dims))]
        idx = [Poly.atom(v) for v in vs]
        W = [Var(v, ZERO, 1, [d]) for v, d in zip(vs, dims)]
        cell = idx[0] * inc if kind == "v" else idx[0] * inc + idx[1] if row else idx[1] * inc + idx[0]
        # the accumulation
        ev = [(i, n) for i, n, ls in nodes if n.kind == "call" and re.match(r"binnedBLAS_[dszc]b[dszc]gem[vm]$", n.name)]
        if len(ev) != 1:
            raise Bad("P12 P13", "%d accumulations of the product instead of one" % len(ev))
        ei, en = ev[0]
        args = list(en.args)
        if kind == "v":
            Yp, Yinc = args[10], args[11]
            want = R.expect_gemv([a[k] if k != "alpha" else alpha for k in names] + [Yp, Yinc])
            accp = Ptr(Yp.base, Yp.off + idx[0] * Yinc * fold * (2 * R.e * R.c))
        else:
            Yp, Yinc = args[12], args[13]
            want = R.expect_gemm([a[k] if k != "alpha" else alpha for k in names] + [Yp, Yinc])
            erow = R.char_in(args[1], "rR")
            accp = Ptr(Yp.base, Yp.off + (idx[0] * Yinc + idx[1] if erow else idx[1] * Yinc + idx[0]) * fold * (2 * R.e * R.c))
        got = R.contribs(S.body, fold)
        if len(got) != len(want):
            raise Bad("P12 P13", "%d groups of products are accumulated instead of %d" % (len(got), len(want)), en.line)
        for g, w in zip(got, want):
            R.same_set(g, w, "P12 P13 P16", "product")
        if Yp.base.kind != "heap":
            raise Bad("P13 P14", "the product is not accumulated in a temporary", en.line)
        # distinct cells
        if kind == "m":
            lim = N if erow else M
            if Yinc != lim and not mat.nonneg(Yinc - lim, R.pos):
                raise Bad("P13 P15", "rows of the temporary overlap (leading dimension %r for %r columns)" % (Yinc, lim), en.line)
        elif not mat.nonneg(Yinc - 1, R.pos):
            raise Bad("P13 P15", "cells of the temporary overlap (stride %r)" % Yinc, en.line)
        # initial contents
        bz = R.is_zero(beta)
        inits = []
        for i, n, ls in nodes:
            if n.kind == "fill" and n.args[0].base is Yp.base:
                inits.append((i, n, ls, "zero"))
            elif n.kind == "call" and re.match(r"binned_[dszc]msetzero$", n.name):
                inits.append((i, n, ls, "setzero"))
            elif n.kind == "call" and re.match(r"binned_([dszc])m\1conv$", n.name):
                inits.append((i, n, ls, "conv"))
            elif n.kind in ("store", "copy") and R.dest(n).base is Yp.base:
                raise Undecided("the temporary is written directly")
            elif n.kind == "call" and n is not en and not re.match(r"binned_[dszc]{2}mconv(_sub)?$", n.name):
                raise Bad("P13", "unexpected call of %s" % n.name, n.line)
        late = [x for x in inits if x[0] > ei]
        if late:
            raise Bad("P13 P15", "the temporary is initialised after the accumulation", late[0][1].line)
        Lacc = [Var(v, ZERO, 1, [d]) for v, d in zip(vs, dims)]
        size = fold * (2 * R.e * R.c)

        def inside(lo, n, line, what):
            if not mat.ubound(accp.off + size - lo - n, Lacc, (), lambda q: mat.nonneg(-q, R.pos)) or not mat.ubound(lo - accp.off, Lacc, (), lambda q: mat.nonneg(-q, R.pos)):
                raise Bad("P15 P13", "%s %r bytes at %r do not cover the accumulators used" % (what, n, lo), line)
            R.checked += 1
        inside(ZERO, Yp.base.size, en.line, "the allocation:")
        fills = [x for x in inits if x[3] == "zero"]
        for i, n, ls, k in fills:
            lo, cnt = region(R, n, ls)
            inside(lo, cnt, n.line, "zeroed:")
        convs = [x for x in inits if x[3] != "zero"]
        if not convs and not fills:
            raise Bad("P15 P13", "the temporary is not initialised")
        wantv = [S.sub(x) for x in R.cmul(R.cx(out, cell), beta)]
        if len(convs) > 1:
            raise Undecided("several initialisation loops")
        if convs:
            i, n, ls, k = convs[0]
            if fills and fills[-1][0] > i:
                raise Bad("P13", "the prior output is overwritten with zeros", n.line)
            if n.args[0] != fold:
                raise Bad("P16 P13", "fold %r instead of %r" % (n.args[0], fold), n.line)
            if k == "setzero":
                acc, val = R.acc(*n.args[1:5], fold=fold), tuple([ZERO] * R.c)
            else:
                m = re.match(r"binned_([dszc])m", n.name)
                if m.group(1) != R.T:
                    raise Bad("P16 P13", "%s is called in a routine of type %s" % (n.name, R.T), n.line)
                acc = R.acc(*n.args[2:6], fold=fold)
                val = n.extra if R.c == 2 else (n.args[1],)
            L, (acc, val) = collapse([nodevar(l) for l in ls], (acc, tuple(S.sub(v) for v in val)), R.at)
            R.same_set(dict(vars=L, acc=acc, prod=val, line=n.line), dict(vars=W, acc=accp, prod=tuple(wantv)), "P13", "prior output times beta")
        elif not bz:
            raise Bad("P13", "beta * prior output is not accumulated")
        if bz:
            for b, off, line in S.reads:
                if b is out.base:
                    raise Bad("P13", "the output is read although beta is zero", line)
        # results
        res = []
        for i, n, ls in nodes:
            if n.kind in ("fill", "copy") and R.dest(n).base is out.base:
                raise Undecided("the output is written in bulk")
            if n.kind == "store" and n.args.base is out.base:
                cn, comp = conv_node(n.val)
                if cn is None:
                    raise Bad("P13", "something other than a converted accumulator is stored to the output: %r" % (n.val,), n.line)
                ci = [j for j, m, _ in nodes if m is cn][0]
                if ci < ei:
                    raise Bad("P13", "the result is read before the accumulation", cn.line)
                if cn.pos[0] is not n.pos[0] if cn.pos and n.pos else False:
                    raise Undecided("converted in another loop than stored")
                fr = [j for j, m, _ in nodes if m.kind == "free" and isinstance(m.args, Ptr) and m.args.base is Yp.base]
                if fr and fr[0] < ci:
                    raise Bad("P15", "the temporary is read after it was released", cn.line)
                comp = part_of(R, cn, comp, n.args)
                res.append((n, ls, conv_acc(R, cn, fold, comp)[0], comp))
        if sorted(r[3] for r in res) != list(range(R.c)):
            raise Bad("P13", "%d results stored per output element instead of %d" % (len(res), R.c))
        for n, ls, acc, comp in res:
            if n.typ != R.k:
                raise Bad("P13", "the result is stored as another type", n.line)
            L, (acc, dst) = collapse([nodevar(l) for l in ls], (acc, n.args), R.at)
            dst = Ptr(dst.base, dst.off - comp * R.e)
            R.same_set(dict(vars=L, acc=dst, prod=(acc,), line=n.line),
                       dict(vars=W, acc=Ptr(out.base, out.off + cell * (R.e * R.c)), prod=(accp,)), "P13 P12", "output")
        R.memory({out.base})
    return rule


def rgem_spec(T, kind):
    c = COMP[T] == 2
    s = "p" if c else "f"
    if kind == "v":
        return [("fold", "i"), ("Order", "i"), ("TransA", "i"), ("M", "i"), ("N", "i"), ("alpha", s), ("A", "p"), ("lda", "i"), ("X", "p"), ("incX", "i"),
                ("beta", s), ("Y", "p"), ("incY", "i")]
    return [("fold", "i"), ("Order", "i"), ("TransA", "i"), ("TransB", "i"), ("M", "i"), ("N", "i"), ("K", "i"), ("alpha", s), ("A", "p"), ("lda", "i"),
            ("B", "p"), ("ldb", "i"), ("beta", s), ("C", "p"), ("ldc", "i")]


def fixfold(rule, fold):
    def r(R, a, ret):
        a = dict(a)
        a["fold"] = Poly.const(fold)
        return rule(R, a, ret)
    return r


# ---------------------------------------------------------------- reductions to a scalar
OPS = {  # op: (vectors, scaled, complex result, squares)
    "sum": (1, False), "asum": (1, False), "nrm2": (1, True), "dot": (2, False), "dotu": (2, False), "dotc": (2, False), "ssq": (1, True)}


def rscalar(mform, A, nvec, scaled, sub):
    """rule: zero accumulator, one reduction over the caller's vectors, converted once.  A: accumulator type"""
    def rule(R, a, ret):
        S = R.S
        fold = a["fold"]
        R.pos |= fold.atoms()
        nodes = order_of(S)
        for i, n, ls in nodes:
            if ls:
                raise Undecided("a loop")
        ops = [(i, n) for i, n, _ in nodes if n.kind == "call" and re.match(r"binnedBLAS_", n.name)]
        if len(ops) != 1:
            raise Bad("P16", "%d reductions instead of one" % len(ops))
        oi, on = ops[0]
        if on.name != mform:
            raise Bad("P16", "%s is performed instead of %s" % (on.name, mform), on.line)
        want = [fold, a["N"], a["X"], a["incX"]] + ([a["Y"], a["incY"]] if nvec == 2 else []) + ([ZERO] if scaled else [])
        for k, w in enumerate(want):
            if on.args[k] != w:
                raise Bad("P16", "argument %d of %s is %r instead of %r" % (k + 1, on.name, on.args[k], w), on.line)
        acc = R.acc(*on.args[len(want):len(want) + 4], fold=fold)
        if acc.base.kind != "heap":
            raise Undecided("accumulator is not allocated here")
        size = fold * (2 * R.e * R.c)
        if acc.off != ZERO or not mat.nonneg(acc.base.size - size, R.pos):
            raise Bad("P15 P16", "%r bytes are allocated for an accumulator of %r" % (acc.base.size, size), on.line)
        init = False
        for i, n, _ in nodes:
            if n.kind == "fill" and n.args[0] == acc and mat.nonneg(n.args[1] - size, R.pos) and i < oi:
                init = True
            elif n.kind == "call" and re.match(r"binned_%sm\w*setzero$" % A, n.name) and n.args[0] == fold and R.acc(*n.args[1:5], fold=fold) == acc and i < oi:
                init = True
            elif n.kind == "call" and n is not on and not re.match(r"binned_[dszc]{2}mconv(_sub)?$", n.name):
                raise Bad("P16", "unexpected call of %s" % n.name, n.line)
        if not init:
            raise Bad("P15 P16", "the accumulator is not set to zero before use", on.line)
        if sub:
            res = [n for i, n, _ in nodes if n.kind == "store" and n.args.base is a["out"].base]
            vals = {}
            for n in res:
                vals[n.args.off] = n.val
            if set(vals) != {a["out"].off + k * R.e for k in range(R.c)}:
                raise Bad("P16 P14", "the result is stored at %s" % sorted(map(repr, vals)))
            vals = [vals[a["out"].off + k * R.e] for k in range(R.c)]
        else:
            vals = [ret]
        for k, v in enumerate(vals):
            if scaled:
                cands = [x for x in v.atoms() if x.info is not None and x.info[0] == "fn" and x.info[1] == "sqrt"] if isinstance(v, Poly) else []
                if len(cands) != 1:
                    raise Bad("P16 P21", "%r is returned instead of scale * sqrt(accumulator)" % (v,))
                sc = Poly.atom(Atom("", info=("x",)))
                want = [x for x in v.atoms() if x.info is not None and x.info[0] == "conv" and x.info[1] is on]
                if len(want) != 1 or v != Poly.atom(want[0]) * Poly.atom(cands[0]):
                    raise Bad("P16 P21", "%r is returned instead of scale * sqrt(accumulator)" % (v,))
                v = cands[0].info[2][0]
            cn, comp = conv_node(v)
            if cn is None or comp != k and R.c == 1:
                raise Bad("P16", "%r is returned instead of the converted accumulator" % (v,))
            ca, cc = conv_acc(R, cn, fold, k)
            if cc is not None and comp != k:
                raise Bad("P16", "%r is returned instead of the converted accumulator" % (v,))
            if ca != acc:
                raise Bad("P16", "another accumulator is converted", cn.line)
            ci = [i for i, m, _ in nodes if m is cn][0]
            if ci < oi:
                raise Bad("P16", "the accumulator is converted before the reduction", cn.line)
            R.checked += 1
        R.memory({a["out"].base} if sub else set())
    return rule


def vec_spec(nvec, fold, extra=()):
    return ([("fold", "i")] if fold else []) + [("N", "i"), ("X", "p"), ("incX", "i")] + ([("Y", "p"), ("incY", "i")] if nvec == 2 else []) + list(extra)


def reductions():
    """(stem, T of result, mform, accumulator type, nvec, scaled)"""
    out = []
    for T in "ds":
        Z = {"d": "z", "s": "c"}[T]
        out.append(("%ssum" % T, T, "binnedBLAS_%sm%ssum" % (T, T), 1, False))
        out.append(("%ssum" % Z, Z, "binnedBLAS_%sm%ssum" % (Z, Z), 1, False))
        out.append(("%sasum" % T, T, "binnedBLAS_%sm%sasum" % (T, T), 1, False))
        out.append(("%s%sasum" % (T, Z), T, "binnedBLAS_%sm%sasum" % (T, Z), 1, False))
        out.append(("%snrm2" % T, T, "binnedBLAS_%sm%sssq" % (T, T), 1, True))
        out.append(("%s%snrm2" % (T, Z), T, "binnedBLAS_%sm%sssq" % (T, Z), 1, True))
        out.append(("%sdot" % T, T, "binnedBLAS_%sm%sdot" % (T, T), 2, False))
        out.append(("%sdotu" % Z, Z, "binnedBLAS_%sm%sdotu" % (Z, Z), 2, False))
        out.append(("%sdotc" % Z, Z, "binnedBLAS_%sm%sdotc" % (Z, Z), 2, False))
    return out


def scalar_tasks(prog, folds, tags, need):
    out = []
    for stem, T, mform, nvec, scaled in reductions():
        sub = COMP[T] == 2
        sfx = "_sub" if sub else ""
        extra = [("out", "p")] if sub else []
        rule = rscalar(mform, T, nvec, scaled, sub)
        fn = need("reproBLAS_r%s%s" % (stem, sfx))
        out.append(SummTask(prog, fn, vec_spec(nvec, True, extra), T, rule, tags, "one reduction of the caller's vectors into a fresh zero accumulator, converted and returned", ("N", "fold")))
        fn = need("reproBLAS_%s%s" % (stem, sfx))
        fd = folds[T]
        out.append(SummTask(prog, fn, vec_spec(nvec, False, extra), T, fixfold(rule, fd), tags, "same with the configured default fold", ("N",)))
    return out


# ---------------------------------------------------------------- packed forms of the reductions
def rpacked(mform, T, nvec, scaled):
    def rule(R, a, ret):
        nodes = order_of(R.S)
        fold = a["fold"]
        if len(nodes) != 1 or nodes[0][1].kind != "call":
            raise Bad("P16", "more than one operation: %s" % ", ".join(repr(n) for _, n, _ in nodes)[:200])
        n = nodes[0][1]
        if n.name != mform:
            raise Bad("P16", "%s is performed instead of %s" % (n.name, mform), n.line)
        Z = a["Z"]
        want = [fold, a["N"], a["X"], a["incX"]] + ([a["Y"], a["incY"]] if nvec == 2 else []) + ([a["scale"]] if scaled else []) + \
            [Z, ONE, Ptr(Z.base, Z.off + fold * (R.e * R.c)), ONE]
        if len(n.args) != len(want):
            raise Bad("P16", "%d arguments" % len(n.args), n.line)
        for k, (g, w) in enumerate(zip(n.args, want)):
            if g != w:
                raise Bad("P16 P17", "argument %d of %s is %r instead of %r" % (k + 1, n.name, g, w), n.line)
        if scaled:
            cn, _ = conv_node(ret)
            if cn is not n:
                raise Bad("P16 P21", "%r is returned instead of the new scale" % (ret,), n.line)
        R.checked += len(want)
    return rule


def packed_tasks(prog, tags, need):
    out = []
    for stem, T, mform, nvec, scaled in reductions():
        m = re.match(r"binnedBLAS_([dszc])m([dszc])(\w+)$", mform)
        fn = need("binnedBLAS_%sb%s%s" % m.groups())
        spec = vec_spec(nvec, True, ([("scale", "f")] if scaled else []) + [("Z", "p")])
        out.append(SummTask(prog, fn, spec, T, rpacked(mform, T, nvec, scaled), tags, "performs exactly the general routine on the packed accumulator's halves", ("N", "fold")))
    return out


# ---------------------------------------------------------------- element-wise accumulator addition
def raddv(T, scaled=False, xs=None):
    """rule for: for i < N: Y_i += X_i (packed accumulators, strides in accumulators; scaled: one scale cell in front)"""
    def rule(R, a, ret, N=None, X=None, incX=None, Y=None, incY=None, tags="P20 P16"):
        S = R.S
        fold = a["fold"]
        N = a["N"] if N is None else N
        X, Y = X or a["X"], Y or a["Y"]
        incX = a["incX"] if incX is None else incX
        incY = a["incY"] if incY is None else incY
        R.pos |= atomsof(fold, N)
        R.pos = {x for x in R.pos if x.info is not None}
        hd = R.e if scaled else 0
        cell = fold * (2 * R.e * R.c) + hd
        want = re.compile(r"binned_%sm%smadd%s$" % (T, T, "sq" if scaled else ""))
        v = Atom("i", info=("var",))
        pv = Poly.atom(v)
        xa, ya = Ptr(X.base, X.off + pv * incX * cell), Ptr(Y.base, Y.off + pv * incY * cell)
        evs = []
        for i, n, ls in order_of(S):
            if n.kind == "call":
                if not want.match(n.name):
                    raise Bad(tags, "unexpected call of %s" % n.name, n.line)
                evs.append((n, ls))
        if len(evs) != 1:
            raise Bad(tags, "%d additions per element instead of one" % len(evs))
        n, ls = evs[0]
        if n.args[0] != fold:
            raise Bad(tags, "fold %r instead of %r" % (n.args[0], fold), n.line)
        if not scaled:
            px, py = R.acc(*n.args[1:5], fold=fold), R.acc(*n.args[5:9], fold=fold)
            L, (px, py) = collapse([nodevar(l) for l in ls], (px, py), R.at)
            R.same_set(dict(vars=L, acc=py, prod=(px,), line=n.line), dict(vars=[Var(v, ZERO, 1, S.mins(N))], acc=ya, prod=(xa,)), tags, "addition")
        else:
            sx, sy = n.args[1], n.args[6]
            px, py = R.acc(*n.args[2:6], fold=fold), R.acc(*n.args[7:11], fold=fold)
            st = [(m, l2) for i, m, l2 in order_of(S) if m.kind == "store"]
            if len(st) != 1:
                raise Bad(tags, "the combined scale is stored %d times per element" % len(st), n.line)
            m, l2 = st[0]
            cn, _ = conv_node(m.val)
            if cn is not n or [id(x) for x in ls] != [id(x) for x in l2] or m.typ != R.k:
                raise Bad(tags, "%r is stored instead of the combined scale" % (m.val,), m.line)
            L, (px, py, sx, sy, dst) = collapse([nodevar(l) for l in ls], (px, py, sx, sy, m.args), R.at)
            at_ = lambda p: Poly.atom(S.elem(p.base, p.off, R.k, None))
            sh = lambda p: Ptr(p.base, p.off + hd)
            R.same_set(dict(vars=L, acc=py, prod=(px, sx, sy, dst), line=n.line),
                       dict(vars=[Var(v, ZERO, 1, S.mins(N))], acc=sh(ya), prod=(sh(xa), at_(xa), at_(ya), ya)), tags, "scaled addition")
        for i, m, l2 in order_of(S):
            if m.kind in ("fill", "copy", "malloc", "free") or m.kind == "store" and not scaled:
                raise Bad(tags + " P14", "unexpected %s" % m.kind, m.line)
    return rule


def addv_tasks(prog, tags, need):
    out = []
    for T in "dszc":
        fn = need("binned_%sb%sbaddv" % (T, T))
        spec = [("fold", "i"), ("N", "i"), ("X", "p"), ("incX", "i"), ("Y", "p"), ("incY", "i")]
        out.append(SummTask(prog, fn, spec, T, raddv(T), tags, "every accumulator of X is added to its partner in Y exactly once", ("N",)))
    return out


# ---------------------------------------------------------------- MPI
class MpiContracts(Contracts):
    def get(s, name):
        if name in ("MPI_Op_create", "MPI_Type_contiguous"):
            return created
        if name in ("MPI_Type_commit", "MPI_Abort", "fprintf", "fwrite", "fputs", "MPI_Type_free", "MPI_Op_free"):
            return other
        return Contracts.get(s, name)


def created(S, name, args, it):
    n = Node("call", name=name, args=args, line=it.line, pos=(S.body, len(S.body)))
    S.body.append(n)
    p = args[-1]
    if isinstance(p, Ptr) and p.off.is_const():
        S.touched.add(p.base)
        S.mem[(p.base, p.off.cval())] = (Ptr(Base("handle", "param"), ZERO), "ptr")
        n.val = S.mem[(p.base, p.off.cval())][0]
    n.extra = S.at.get(("rc", name, len(S.body)), "rc of " + name)
    return Poly.atom(n.extra)


def other(S, name, args, it):
    n = Node("call", name=name, args=args, line=it.line, pos=(S.body, len(S.body)))
    S.body.append(n)
    n.extra = S.at.get(("rc", name, len(S.body)), "rc of " + name)
    if it.ty is not None and it.ty.k == "i":
        return Poly.atom(n.extra)
    return None


class MpiTask:
    """one factory function for all supported folds"""
    cost = 2

    def __init__(s, prog, fn, T, op, scaled, maxfold, elem, tags):
        s.prog, s.fn, s.T, s.op, s.scaled, s.maxfold, s.elem, s.tags = prog, fn, T, op, scaled, maxfold, elem, frozenset(tags)
        s.part = "folds 2..%d" % maxfold

    def run(s):
        out = []
        slots = {}
        npaths = ck = 0
        for fold in range(2, s.maxfold + 1):
            at = summ.Atoms()
            todo = [()]
            made = kept = 0
            try:
                while todo:
                    fs = todo.pop()
                    S = summ.Summ(s.prog, MpiContracts(), fs, at)
                    try:
                        ret = S.run(s.fn, [Poly.const(fold)])
                    except summ.Fork as e:
                        todo += [fs + ((e.key, False),), fs + ((e.key, True),)]
                        if len(todo) > 300:
                            raise Undecided("more than 300 paths")
                        continue
                    npaths += 1
                    r = s.path(S, fold, ret, slots)
                    made += r == "made"
                    kept += r == "kept"
                if not made:
                    raise Bad("P20", "no path creates the handle for fold %d" % fold)
                if not kept:
                    raise Bad("P20", "the handle for fold %d is never kept" % fold)
                ck += 1
            except Bad as e:
                t = s.tags & frozenset(e.tags)
                if t:
                    out.append(Result(t, s.fn, "fold %d" % fold, "handle", False, "%s%s" % ("" if e.line is None else "line %s: " % e.line, e.msg)))
            except Undecided as e:
                out.append(Result(s.tags, s.fn, "fold %d" % fold, "handle", False, "undecided: %s" % e))
        if not out:
            for t in sorted(s.tags):
                out.append(Result(frozenset((t,)), s.fn, s.part, "operator" if s.op else "datatype", True, "%d paths, %d folds" % (npaths, ck)))
        return out[:6]

    def path(s, S, fold, ret, slots):
        calls = [n for n in S.body if n.kind == "call"]
        if any(n.kind == "loop" for n in S.body):
            raise Undecided("a loop")
        if any(n.name == "MPI_Abort" for n in calls):
            # only after a failure
            if not any(n.extra is not None and (("ieq", Poly.atom(n.extra)), False) in S.facts.items() for n in calls if n.name.startswith("MPI_") and n.name != "MPI_Abort"):
                raise Bad("P20 P15", "the program is aborted although nothing failed")
            return "abort"
        mk = [n for n in calls if n.name in ("MPI_Op_create", "MPI_Type_contiguous")]
        st = [n for n in S.body if n.kind == "store"]
        for n in calls:
            if n not in mk and n.name != "MPI_Type_commit":
                raise Bad("P20", "unexpected call of %s" % n.name, n.line)
        if not mk:
            if st:
                raise Bad("P20", "the cache is changed without a handle being created", st[0].line)
            if not isinstance(ret, Ptr) or ret.off != ZERO:
                raise Bad("P20", "%r is returned" % (ret,))
            src = [k for k, v in S.globals.items() if v is ret.base]
            if not src or not isinstance(src[0], tuple) or src[0][0] != "ptr":
                raise Bad("P20", "%r is returned" % (ret,))
            p = src[0][1]
            flags = [k[1] for k, v in S.facts.items() if not v and k[0] == "ieq"]
            fl = [a.info[2][0] for q in flags for a in q.atoms() if a.info is not None and a.info[0] == "fn" and a.info[1].startswith("load.")]
            if len(fl) != 1:
                raise Undecided("what says that the handle exists?")
            s.slot(slots, fold, p, fl[0])
            return "kept"
        if len(mk) != 1:
            raise Bad("P20", "%d handles are created" % len(mk), mk[1].line)
        m = mk[0]
        p = m.args[-1]
        if s.op:
            if m.name != "MPI_Op_create":
                raise Bad("P20", "%s instead of an operator" % m.name, m.line)
            if not isinstance(m.args[0], Fn):
                raise Undecided("operator function %r" % (m.args[0],))
            if m.args[1] == ZERO:
                pass        # non-commutative is a safe choice
            s.callback(S, m.args[0], fold)
        else:
            if m.name != "MPI_Type_contiguous":
                raise Bad("P20", "%s instead of a datatype" % m.name, m.line)
            want = fold * 2 * COMP[s.T] + (1 if s.scaled else 0)
            if m.args[0] != Poly.const(want):
                raise Bad("P20 P17", "the datatype for fold %d has %r elements instead of %d" % (fold, m.args[0], want), m.line)
            if repr(m.args[1]) != s.elem[KIND[s.T]]:
                raise Bad("P20", "the datatype is made of %r instead of %s" % (m.args[1], s.elem[KIND[s.T]]), m.line)
            cm = [n for n in calls if n.name == "MPI_Type_commit"]
            if len(cm) != 1 or cm[0].args[0] != p or calls.index(cm[0]) < calls.index(m):
                raise Bad("P20", "the datatype is not committed once after it was created", m.line)
        if ret != m.val:
            raise Bad("P20", "%r is returned instead of the new handle" % (ret,), m.line)
        fl = [n for n in st if n.args.base.kind == "global"]
        if len(fl) != 1 or len(st) != 1 or not fl[0].val.is_const() or not fl[0].val.cval():
            raise Bad("P20", "the handle is not marked as created exactly once", m.line)
        s.slot(slots, fold, p, fl[0].args)
        return "made"

    def slot(s, slots, fold, p, flag):
        for f, (q, g) in slots.items():
            if (f == fold) != (q == (p.base.name, p.off)) or (f == fold) != (g == (flag.base.name, flag.off)):
                raise Bad("P20 P18", "the handles of folds %d and %d share or split a cache entry" % (f, fold))
        slots[fold] = ((p.base.name, p.off), (flag.base.name, flag.off))

    def callback(s, S0, name, fold):
        spec = [("invec", "p"), ("inoutvec", "p"), ("len", "p"), ("datatype", "p")]
        base = raddv(s.T, s.scaled)

        def rule(R, a, ret):
            N = [x for x in (R.S.at.tab.get(("fn", "load.i", (a["len"],))),) if x is not None]
            if not N:
                raise Bad("P20", "the element count is not read")
            base(R, {"fold": Poly.const(fold)}, ret, N=Poly.atom(N[0]), X=a["invec"], incX=ONE, Y=a["inoutvec"], incY=ONE)
        np, ck, ni, bad = run_rule(s.prog, (name.name, name.mod), spec, s.T, rule, ())
        for tags, msg, line in bad:
            raise Bad(" ".join(tags or s.tags), "operator %s: %s" % (name.name, msg), line)


def mpi_tasks(prog, getter, elem, tags, need):
    out = []
    mx = {"d": getter["dimaxindex"] + 1, "s": getter["simaxindex"] + 1}
    for T in "dszc":
        R = "d" if T in "dz" else "s"
        name = {"d": "DOUBLE", "z": "DOUBLE_COMPLEX", "s": "FLOAT", "c": "FLOAT_COMPLEX"}[T]
        out.append(MpiTask(prog, need("binnedMPI_%sB%sBADD" % (T.upper(), T.upper())), T, True, False, mx[R], elem, tags))
        out.append(MpiTask(prog, need("binnedMPI_%s_BINNED" % name), T, False, False, mx[R], elem, tags))
        if T in "ds":
            out.append(MpiTask(prog, need("binnedMPI_%sB%sBADDSQ" % (T.upper(), T.upper())), T, True, True, mx[R], elem, tags))
            out.append(MpiTask(prog, need("binnedMPI_%s_BINNED_SCALED" % name), T, False, True, mx[R], elem, tags))
    return out
