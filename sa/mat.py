"""Rules over loop-nest summaries (summ.py): matrix routines, their reproducible drivers, wrappers and element-wise loops."""
import re, itertools
from fractions import Fraction
from poly import Atom, Poly, ZERO, ONE
import summ
from summ import Ptr, Base, Undecided, Fork, Node, deep_atoms, subst, PosKey
from small import Result

ELT = {"d": 8, "z": 8, "s": 4, "c": 4}
COMP = {"d": 1, "s": 1, "z": 2, "c": 2}
KIND = {"d": "d", "z": "d", "s": "f", "c": "f"}


class Bad(Exception):
    def __init__(s, tags, msg, line=None):
        s.tags, s.msg, s.line = tags.split(), msg, line


class Var:
    __slots__ = ("a", "lo", "step", "his")

    def __init__(s, a, lo, step, his):
        s.a, s.lo, s.step, s.his = a, lo, step, list(his)

    def __repr__(s):
        return "%s in %r..min%r step %r" % (s.a.name, s.lo, s.his, s.step)


def P_(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def atomsof(*xs):
    out = set()
    for x in xs:
        if isinstance(x, (tuple, list)):
            for y in x:
                out |= atomsof(y)
        else:
            deep_atoms(x, out)
    return out


def sub_any(x, m, at):
    if isinstance(x, (tuple, list)):
        return tuple(sub_any(y, m, at) for y in x)
    return subst(x, m, at)


def collapse(vs, exprs, at, fixed=()):
    """merge tiled loops: returns (vars, exprs) with an exact covering of the same index set"""
    L = [Var(v.a, v.lo, v.step, v.his) for v in vs]
    exprs = tuple(exprs)
    ch = True
    while ch:
        ch = False
        for v in L:
            used = v.a in atomsof(exprs)
            dep = [w for w in L if w is not v and v.a in atomsof(w.lo, list(w.his))]
            if used and len(dep) <= 1:
                # rule B: an inner index only ever used as v + t
                for t in ([d for d in dep] or [w for w in L if w is not v]):
                    if t.step != 1 or t.a not in atomsof(exprs) or v.a in atomsof(t.lo) or any(t.a in atomsof(w.lo, list(w.his)) for w in L if w is not t):
                        continue
                    u = Atom("%s" % t.a.name, info=("var",))
                    e2 = sub_any(exprs, {t.a: Poly.atom(u) - Poly.atom(v.a)}, at)
                    if v.a in atomsof(e2):
                        continue
                    exprs = e2
                    va = Poly.atom(v.a)
                    L[L.index(t)] = Var(u, t.lo + va, 1, [h + va for h in t.his])
                    ch = True
                    break
                if ch:
                    break
                continue
            if used or len(dep) != 1:
                continue
            w = dep[0]
            va = Poly.atom(v.a)
            if w.lo != va:
                continue
            tile = [h for h in w.his if v.a in atomsof(h)]
            H = [h for h in w.his if v.a not in atomsof(h)]
            if len(tile) != 1 or not (tile[0] - va).is_const():
                if not tile and H:
                    raise Bad("P12", "the elements from %r on are visited again for every block" % va)
                continue
            B = (tile[0] - va).cval()
            if B < v.step:
                raise Bad("P12", "blocks advance by %s but only %s elements of each are visited" % (v.step, B))
            if B > v.step:
                raise Bad("P12", "blocks advance by %s but %s elements of each are visited: elements are used more than once" % (v.step, B))
            if v.step % w.step:
                continue
            for h in v.his:
                if h in H:
                    continue
                d = h - v.lo
                if not (d.is_const() and d.cval() % B == 0):
                    raise Bad("P12 P14", "a block may run past %r (blocks of %s from %r)" % (h, B, v.lo))
            L[L.index(w)] = Var(w.a, v.lo, w.step, summ.dedupe(H + v.his))
            L.remove(v)
            ch = True
            break
    return L, exprs


def ubound(p, L, fixed, ok, depth=0):
    """is some upper bound of p over the index ranges accepted by ok()?"""
    at = deep_atoms(p)
    # innermost first: a variable no other remaining variable's bounds use
    cand = [v for v in L if v.a in at]
    if not cand:
        return ok(p)
    inner = [v for v in cand if not any(v.a in atomsof(w.lo, list(w.his)) for w in cand if w is not v)]
    if not inner:
        return False
    v = inner[0]
    co = {q: c for q, c in p.d.items() if v.a in q}
    if any(q.count(v.a) > 1 for q in co):
        return False
    if all(c > 0 for c in co.values()):
        opts = [h - 1 for h in v.his]
    elif all(c < 0 for c in co.values()):
        opts = [v.lo]
    else:
        return False
    rest = [w for w in L if w is not v]
    return any(ubound(p.subst({v.a: o}), rest, fixed, ok, depth + 1) for o in opts)


def lbound(p, L, ok):
    return ubound(-p, L, (), lambda q: ok(-q))


def nonneg(p, pos):
    """p >= 0 given that the atoms in pos are >= 1 (sufficient test: all coefficients >= 0 after shifting)"""
    m = {a: Poly.atom(a) + 1 for a in p.atoms() if a in pos}
    q = p.subst(m)
    return all(c >= 0 for c in q.d.values()) and all(a in pos for a in q.atoms())


def flatten(body, loops=()):
    for n in body:
        if n.kind == "loop":
            yield from flatten(n.body, loops + (n,))
        else:
            yield n, loops


def nodevar(n):
    return Var(n.var, n.lo, n.step, n.his)


class Rules:
    def __init__(s, S, T, pos=()):
        s.S, s.at, s.T = S, S.at, T
        s.e, s.c, s.k = ELT[T], COMP[T], KIND[T]
        s.pos = set(pos)
        s.checked = 0

    # ------------------------------------------------ elements
    def at_(s, ptr, idx, comp=0, pos=None):
        """value of element idx (in elements of type T) behind ptr"""
        off = ptr.off + s.P(idx) * (s.e * s.c) + comp * s.e
        a = s.S.elem(ptr.base, off, s.k, pos if ptr.base.kind in ("heap", "alloca") else None)
        return s.S.eq.get(a, Poly.atom(a))

    def P(s, x):
        return x if isinstance(x, Poly) else Poly.const(x)

    def cx(s, ptr, idx, pos=None):
        return tuple(s.at_(ptr, idx, k, pos) for k in range(s.c))

    def cmul(s, a, b):
        if len(a) == 1:
            return (a[0] * b[0],)
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])

    def conj(s, a):
        return a if len(a) == 1 else (a[0], -a[1])

    def char_in(s, v, chars):
        """is the character parameter one of chars? (splits the path if the code does not tell)"""
        for ch in chars:
            if s.S.decide(s.S.canon("ieq", s.P(v) - ord(ch))):
                return True
        return False

    def is_zero(s, vals):
        return all(s.S.decide(s.S.canon("feq", s.S.sub(v))) for v in vals)

    def empty(s, dims):
        return any(s.S.decide(s.S.canon("ieq", d)) for d in dims)

    # ------------------------------------------------ local buffers
    def resolve(s, p, scope):
        """replace reads of local buffers by what was stored there.  scope: Vars of the reader's loops"""
        for _ in range(6):
            m = {}
            for a in p.atoms():
                if a.info is not None and a.info[0] == "elem" and a.info[1].kind in ("heap", "alloca"):
                    m[a] = s.content(a, scope)
            if not m:
                return p
            p = p.subst(m)
        raise Undecided("buffers depend on each other")

    def content(s, a, scope):
        _, base, off, k, pos = a.info
        if pos is None:
            raise Undecided("read of %s outside the control flow" % base)
        body, idx = pos.body, pos.idx
        while True:
            for i in range(idx - 1, -1, -1):
                n = body[i]
                if n.kind == "malloc" and n.args is base:
                    raise Bad("P15 P12", "%r is read before anything is stored there" % a.name)
                if n.kind == "fill" and n.args[0].base is base:
                    return ZERO
                if n.kind == "free" and isinstance(n.args, Ptr) and n.args.base is base:
                    raise Bad("P15", "%r is read after it was freed" % a.name)
                leaves = [(x, ls) for x, ls in flatten([n]) if x.kind in ("store", "copy") and s.dest(x).base is base]
                if not leaves:
                    continue
                hits = []
                why = None
                for x, ls in leaves:
                    try:
                        v = s.match_store(x, ls, base, off, k, scope)
                    except Undecided as e:
                        why = e
                        v = False
                    if v is not None:
                        hits.append(v)
                if not hits:
                    continue
                if len(hits) > 1 or hits[0] is False:
                    raise why if why and hits[0] is False and len(hits) == 1 else Undecided("several stores may reach %s" % a.name)
                return hits[0]
            if body.loop is None:
                break
            # leaving a loop backwards: nothing later in its body may store here
            later = [x for x, _ in flatten(body[idx:]) if x.kind in ("store", "copy", "fill") and s.dest(x).base is base]
            if later:
                raise Undecided("%s is rewritten later in the same loop" % base)
            body, idx = body.parent, body.pidx
        raise Bad("P15 P12", "%r is read before anything is stored there" % a.name)

    def dest(s, n):
        return n.args if n.kind == "store" else n.args[0]

    def match_store(s, n, ls, base, off, k, scope):
        """None: provably elsewhere; value if it provably covers; Undecided otherwise"""
        if n.kind != "store":
            raise Undecided("copied buffer")
        if n.typ != k:
            raise Undecided("type of %s" % base)
        vs = [nodevar(l) for l in ls]
        L, (woff, wval) = collapse(vs, (n.args.off, n.val if isinstance(n.val, Poly) else ZERO), s.at)
        sz = summ.FSIZE[k]
        D = off - woff
        # read index = write index:  off == woff(w).   peel the write variables by descending stride
        own = {v.a for v in L}
        rest = off - Poly({q: c for q, c in woff.d.items() if not any(a in own for a in q)})
        coefs = []
        for v in L:
            terms = {tuple(x for x in q if x is not v.a): c for q, c in woff.d.items() if v.a in q}
            if any(q.count(v.a) > 1 for q in woff.d):
                raise Undecided("index not linear")
            if not terms:
                raise Undecided("a buffer cell is stored once per iteration of %s" % v.a.name)
            co = Poly(terms)
            if len(co.d) != 1 or any(a in own for a in co.atoms()):
                raise Undecided("stride %r" % co)
            coefs.append((v, co))
        coefs.sort(key=lambda x: (-len(next(iter(x[1].d))), -abs(next(iter(x[1].d.values())))))
        sol = {}
        for i, (v, co) in enumerate(coefs):
            (mon, c), = co.d.items()
            q = {}
            left = {}
            for tq, tc in rest.d.items():
                r = list(tq)
                ok = True
                for a in mon:
                    if a in r:
                        r.remove(a)
                    else:
                        ok = False
                        break
                if ok and (Fraction(tc) / c).denominator == 1 and not (len(mon) == 0 and not tq and abs(tc) < abs(c)):
                    q[tuple(r)] = Fraction(tc) / c
                else:
                    left[tq] = tc
            sol[v.a] = Poly({a: (b.numerator if b.denominator == 1 else b) for a, b in q.items()})
            rest = Poly(left)
        if rest.d:
            if rest.is_const() and all(len(c.d) == 1 and next(iter(c.d.values())) % sz == 0 for _, c in coefs):
                g = 0
                import math
                for _, c in coefs:
                    g = math.gcd(g, int(next(iter(c.d.values()))))
                if rest.cval() % sz == 0 and (g == 0 or rest.cval() % g):
                    return None
            raise Undecided("no stored cell matches %s[%r]" % (base, off))
        # the solution lies in the stored range
        for v, co in coefs:
            e = sol[v.a]
            if v.step != 1:
                raise Undecided("only every %s-th cell of %s is stored" % (v.step, base))
            if not s.in_range(e, v.lo, v.his, scope):
                raise Bad("P15 P12", "%s[%r] is read, but only indices %r..min%r are stored" % (base, off, v.lo, v.his))
        # injectivity: lower digits stay below the next stride
        for i in range(len(coefs) - 1):
            v, co = coefs[i + 1]
            up = coefs[i][1]
            if not any(nonneg(up - co * (h - v.lo), s.pos) for h in v.his):
                raise Undecided("cells of %s may be stored more than once" % base)
        s.checked += 1
        return subst(wval, sol, s.at)

    def in_range(s, e, lo, his, scope):
        by = {v.a: v for v in scope}
        full = [v for v in scope]

        def le0(p):          # p <= 0 over the reader's ranges
            return ubound(p, full, (), lambda q: nonneg(-q, s.pos))
        if not le0(lo - e):
            return False
        return all(le0(e - h + 1) for h in his)

    # ------------------------------------------------ contributions
    def acc(s, pri, incpri, car, inccar, fold):
        """a packed accumulator -> Ptr of its start"""
        if incpri != ONE or inccar != ONE:
            raise Bad("P17 P16", "strides %r, %r within a packed accumulator" % (incpri, inccar))
        if not isinstance(pri, Ptr) or not isinstance(car, Ptr) or car.base is not pri.base or car.off - pri.off != fold * (s.e * s.c):
            raise Bad("P17 P16", "carries at %r are not in the second half of the accumulator at %r" % (car, pri))
        return pri

    def dotvals(s, n, t, conjx):
        """terms of a dot product event: ((vars), product components)"""
        fold, N, X, incX, Y, incY = n.args[:6]
        tp = Poly.atom(t)
        x = s.cx(X, tp * incX, n.pos)
        y = s.cx(Y, tp * incY, n.pos)
        return s.cmul(s.conj(x) if conjx else x, y)

    def expect_gemv(s, args, A=None):
        """contributions of y := y + alpha op(A) x into binned y.  args: fold, Order, TransA, M, N, alpha(values), A, lda, X, incX, Y, incY"""
        fold, order, tra, M, N, alpha, A, lda, X, incX, Y, incY = args
        nt = s.char_in(tra, "nN")
        cj = s.c == 2 and not nt and not s.char_in(tra, "tT")
        row = s.char_in(order, "rR")
        if s.empty((M, N)) or s.is_zero(alpha):
            return []
        rows, cols = (M, N) if nt else (N, M)
        y, x = Atom("y", info=("var",)), Atom("x", info=("var",))
        py, px = Poly.atom(y), Poly.atom(x)
        r, c = (py, px) if nt else (px, py)
        a = s.cx(A, r * lda + c if row else c * lda + r)
        if cj:
            a = s.conj(a)
        prod = s.cmul(s.cmul(a, alpha), s.cx(X, px * incX))
        acc = Ptr(Y.base, Y.off + py * incY * fold * (2 * s.e * s.c))
        return [dict(vars=[Var(y, ZERO, 1, [rows]), Var(x, ZERO, 1, [cols])], acc=acc, prod=prod, fold=fold, what="gemv")]

    def expect_gemm(s, args):
        fold, order, tra, trb, M, N, K, alpha, A, lda, B, ldb, C, ldc = args
        ant, bnt = s.char_in(tra, "nN"), s.char_in(trb, "nN")
        acj = s.c == 2 and not ant and not s.char_in(tra, "tT")
        bcj = s.c == 2 and not bnt and not s.char_in(trb, "tT")
        row = s.char_in(order, "rR")
        if s.empty((M, N, K)) or s.is_zero(alpha):
            return []
        i, j, k = [Atom(x, info=("var",)) for x in "ijk"]
        pi, pj, pk = [Poly.atom(x) for x in (i, j, k)]

        def el(Q, ld, r, c):
            return s.cx(Q, r * ld + c if row else c * ld + r)
        a = el(A, lda, pi, pk) if ant else el(A, lda, pk, pi)
        b = el(B, ldb, pk, pj) if bnt else el(B, ldb, pj, pk)
        if acj:
            a = s.conj(a)
        if bcj:
            b = s.conj(b)
        prod = s.cmul(s.cmul(a, alpha), b)
        acc = Ptr(C.base, C.off + (pi * ldc + pj if row else pj * ldc + pi) * fold * (2 * s.e * s.c))
        return [dict(vars=[Var(i, ZERO, 1, [M]), Var(j, ZERO, 1, [N]), Var(k, ZERO, 1, [K])], acc=acc, prod=prod, fold=fold, what="gemm")]

    def contribs(s, body, fold):
        """contributions a body makes through dot-product and nested matrix-routine calls"""
        out = []
        for n, ls in flatten(body):
            if n.kind != "call":
                continue
            m = re.match(r"binnedBLAS_([dszc])m\1dot([uc]?)$", n.name)
            if m:
                if m.group(1) != s.T:
                    raise Bad("P12 P16", "%s is called in a routine of type %s" % (n.name, s.T), n.line)
                t = Atom("t", info=("var",))
                N = n.args[1]
                vs = [nodevar(l) for l in ls] + [Var(t, ZERO, 1, s.S.mins(N))]
                if n.args[0] != fold:
                    raise Bad("P12 P16", "fold %r instead of %r is handed on" % (n.args[0], fold), n.line)
                ac = s.acc(*n.args[6:10], fold=fold)
                prod = s.dotvals(n, t, m.group(2) == "c")
                prod = tuple(s.resolve(p, vs) for p in prod)
                L, (acc, prod) = collapse(vs, (ac, prod), s.at)
                out.append(dict(vars=L, acc=acc, prod=prod, line=n.line, node=n))
                continue
            m = re.match(r"binnedBLAS_([dszc])b\1gem([vm])$", n.name)
            if m:
                if m.group(1) != s.T:
                    raise Bad("P12 P16", "%s is called in a routine of type %s" % (n.name, s.T), n.line)
                if ls:
                    raise Undecided("matrix routine called in a loop")
                args = list(n.args)
                i = 5 if m.group(2) == "v" else 7
                args[i] = (args[i],) if s.c == 1 else tuple(s.at_(args[i], 0, k) for k in (0, 1))
                if args[0] != fold:
                    raise Bad("P12 P16", "fold %r instead of %r is handed on" % (args[0], fold), n.line)
                for w in (s.expect_gemv if i == 5 else s.expect_gemm)(args):
                    w["line"], w["callee"], w["node"] = n.line, n, n
                    out.append(w)
                continue
        return out

    def same_set(s, got, want, tags, what):
        """got and want describe the same set of (index, accumulator, product) triples"""
        L, W = got["vars"], want["vars"]
        line = got.get("line")
        for v in L:
            if v.a not in atomsof(got["acc"], got["prod"]):
                raise Bad(tags, "%s: the same product is added once per iteration of the loop over %r" % (what, v), line)
        best = None
        if len(L) == len(W):
            for p in itertools.permutations(L):
                if not all(g.lo == w.lo and g.step == w.step and set(g.his) == set(w.his) for g, w in zip(p, W)):
                    continue
                for flip in itertools.product((0, 1), repeat=len(W)):
                    if any(f and (g.step != 1 or len(g.his) != 1) for f, g in zip(flip, p)):
                        continue
                    # the same index set walked downwards: v -> lo + hi - 1 - v
                    m = {g.a: P_(g.lo) + P_(g.his[0]) - 1 - Poly.atom(w.a) if f else Poly.atom(w.a) for f, g, w in zip(flip, p, W)}
                    acc, prod = sub_any(got["acc"], m, s.at), sub_any(got["prod"], m, s.at)
                    if acc == want["acc"] and prod == want["prod"]:
                        s.checked += 1
                        return
                    if any(flip):
                        continue
                    first = acc, prod
                acc, prod = first
                score = (acc == want["acc"]) + sum(a == b for a, b in zip(prod, want["prod"]))
                if best is None or score > best[0]:
                    best = (score, acc, prod)
        if best is None:
            raise Bad(tags, "%s runs over %r instead of %r" % (what, L, W), line)
        if best[1] != want["acc"]:
            raise Bad(tags, "%s: result goes to %r instead of %r" % (what, best[1], want["acc"]), line)
        raise Bad(tags, "%s: product %r instead of %r" % (what, best[2], want["prod"]), line)

    # ------------------------------------------------ memory discipline
    def memory(s, outputs, inputs_ok=()):
        """stores only to local buffers and outputs; allocations released once, after their last use; buffer stores in bounds"""
        S = s.S
        nodes = list(flatten(S.body))
        order = {id(n): i for i, (n, _) in enumerate(nodes)}
        frees = {}
        last = {}
        for i, (n, ls) in enumerate(nodes):
            bs = []
            if n.kind == "store":
                bs.append(n.args.base)
                w = n.args.base
                if w.kind == "param" and w not in outputs:
                    raise Bad("P14 P13", "an input operand is written: %r" % n.args, n.line)
                if w.kind == "global":
                    raise Bad("P18 P14", "global state is written: %r" % n.args, n.line)
                if w.kind in ("heap", "alloca"):
                    s.inbounds(n.args.off, summ.FSIZE.get(n.typ, 8), w, ls, n.line)
            elif n.kind in ("fill", "copy"):
                w = n.args[0].base
                bs += [a.base for a in n.args if isinstance(a, Ptr)]
                if w.kind == "param" and w not in outputs:
                    raise Bad("P14 P13", "an input operand is overwritten: %r" % n.args[0], n.line)
                if w.kind == "heap" and not nonneg(w.size - n.args[0].off - n.args[-1], s.pos):
                    raise Bad("P15", "%r bytes are filled in a buffer of %r" % (n.args[-1], w.size), n.line)
            elif n.kind == "call":
                bs += [a.base for a in n.args if isinstance(a, Ptr)]
            elif n.kind == "free":
                if isinstance(n.args, Ptr):
                    b = n.args.base
                    if b.kind != "heap" or n.args.off != ZERO:
                        raise Bad("P15", "%r is freed" % (n.args,), n.line)
                    if b in frees:
                        raise Bad("P15", "%s is freed twice" % b, n.line)
                    frees[b] = (i, n, ls)
            if n.kind != "free":
                if n.kind == "store" and isinstance(n.val, Poly):
                    bs += [a.info[1] for a in deep_atoms(n.val) if a.info is not None and a.info[0] == "elem"]
                for b in bs:
                    last[b] = i
        mallocs = {n.args: (i, ls) for i, (n, ls) in enumerate(nodes) if n.kind == "malloc"}
        for b, (i, ls) in mallocs.items():
            if b not in frees:
                raise Bad("P15", "%s (%r bytes) is not released on this path" % (b, b.size))
            j, n, l2 = frees[b]
            if [id(x) for x in ls] != [id(x) for x in l2]:
                raise Bad("P15", "%s is allocated and released at different loop depths" % b, n.line)
            if last.get(b, -1) > j:
                raise Bad("P15", "%s is used after it was released" % b, n.line)
            s.checked += 1
        for b in frees:
            if b not in mallocs:
                raise Bad("P15", "%s is released but was not allocated here" % b)

    def inbounds(s, off, n, base, ls, line):
        vs = [nodevar(l) for l in ls]
        L, (off,) = collapse(vs, (off,), s.at)
        if not ubound(off + n - base.size, L, (), lambda q: nonneg(-q, s.pos)):
            raise Bad("P15 P14", "store at offset %r may pass the end of %s (%r bytes)" % (off, base, base.size), line)
        if not ubound(-off, L, (), lambda q: nonneg(-q, s.pos)):
            raise Bad("P15 P14", "store at offset %r may precede %s" % (off, base), line)
        s.checked += 1


# ---------------------------------------------------------------- contracts
EVENTS = re.compile(r"^(binnedBLAS_([dszc])m([dszc])(sum|asum|dot[uc]?|ssq)|binnedBLAS_[dszc]b[dszc]gem[vm]|binned_([dszc]m[dszc]conv|[dszc]{2}mconv(_sub)?|"
                    r"[dszc]m[dszc]?(setzero|set|add|madd|negate|update|deposit|renorm|maddsq|rescale)|[dszc]mdenorm|[ds]scale|[ds]m?index0?|[ds]mbins))$")


class Contracts:
    def __init__(s, extra=None):
        s.extra = re.compile(extra) if extra else None

    def get(s, name):
        if EVENTS.match(name) or s.extra and s.extra.match(name):
            return event
        return None


def event(S, name, args, it):
    m = re.match(r"binned_([dszc]){2}mconv_sub$", name)
    if m:                       # writes its last argument
        T = m.group(1)
        n = Node("call", name=name, args=args, line=it.line, pos=(S.body, len(S.body)))
        S.body.append(n)
        S.touched.add(args[-1].base)
        p = args[-1]
        for c in range(2):
            S.store(Ptr(p.base, p.off + c * ELT[T]), Poly.atom(Atom("conv.%d" % c, info=("conv", n, c))), KIND[T], it.line)
        return None
    m = re.match(r"binned_([dszc])m\1conv$", name)
    if m and COMP[m.group(1)] == 2:
        # read the two components now
        T = m.group(1)
        p = args[1]
        S.args2 = None
        vals = []
        for c in range(2):
            vals.append(S.load(Ptr(p.base, p.off + c * ELT[T]), Ty1(KIND[T])))
        n = Node("call", name=name, args=args, line=it.line, pos=(S.body, len(S.body)), extra=tuple(vals))
        S.touched.add(args[2].base)
        S.body.append(n)
        return None
    n = Node("call", name=name, args=args, line=it.line, pos=(S.body, len(S.body)))
    S.body.append(n)
    if it.ty is not None and it.ty.k in ("f", "d", "i"):
        return Poly.atom(Atom("%s()" % name, info=("conv", n, 0)))
    return None


class Ty1:
    n = 0

    def __init__(s, k):
        s.k = k


# ---------------------------------------------------------------- function descriptions
def params(at, spec, bases):
    """spec: list of (name, 'i'|'f'|'p'); bases shared between paths"""
    def mk(S):
        out = []
        for n, k in spec:
            if isinstance(k, Poly):
                out.append((n, k))
            elif k == "p":
                out.append((n, Ptr(bases.setdefault(n, Base(n, "param")), ZERO)))
            else:
                out.append((n, Poly.atom(bases.setdefault(n, Atom(n, info=("param", n))))))
        return out
    return mk


def run_rule(prog, fn, spec, T, rule, pos, contracts=None, limit=3000):
    """all paths of fn; rule(R, args dict, ret) raises Bad / Undecided.  -> (npaths, checked, problems)"""
    at = summ.Atoms()
    bases = {}
    mk = params(at, spec, bases)
    f = prog.lookup(*fn) if isinstance(fn, tuple) else prog.lookup(fn)
    todo = [()]
    bad = []
    npaths = checked = insts = 0
    while todo:
        fs = todo.pop()
        S = summ.Summ(prog, contracts or Contracts(), fs, at)
        ent = mk(S)
        if f is not None and len(f.args) != len(ent):
            return 0, 0, 0, [(("P12", "P16"), "takes %d parameters instead of %d" % (len(f.args), len(ent)), None)]
        R = None
        try:
            ret = S.run(fn, [v for _, v in ent])
            R = Rules(S, T, [bases[n] for n in pos if n in bases])
            R.posnames = pos
            rule(R, dict(ent), ret)
            npaths += 1
            checked += R.checked
        except Fork as e:
            todo.append(fs + ((e.key, False),))
            todo.append(fs + ((e.key, True),))
        except Bad as e:
            npaths += 1
            bad.append((tuple(e.tags), e.msg + where(fs), e.line))
            if R is not None and "P15" not in e.tags:  # the rule stopped early: the lifetime rules are still to be decided
                try:
                    R.memory({v.base for _, v in ent if isinstance(v, Ptr)})
                except Bad as e2:
                    bad.append((tuple(e2.tags), e2.msg + where(fs), e2.line))
                except (Fork, Undecided):
                    pass
        except Undecided as e:
            npaths += 1
            bad.append((None, "undecided: %s%s" % (e, where(fs)), None))
        insts += S.insts
        if npaths + len(todo) > limit:
            bad.append((None, "undecided: more than %d paths" % limit, None))
            break
    return npaths, checked, insts, bad


def where(fs):
    out = []
    for k, v in fs:
        if not v and len(fs) > 3:
            continue
        p = k[1]
        x = None
        if k[0] == "ieq" and len(p.atoms()) == 1:
            (a,) = p.atoms()
            c = p.cval()
            if p == Poly.atom(a) + c:
                if 32 < -c < 127 and a.name in ("Order", "TransA", "TransB"):
                    x = "%s=%r" % (a.name, chr(int(-c)))
                else:
                    x = "%s=%s" % (a.name, -c)
        out.append(("" if v else "not ") + (x or "%s(%r)" % (k[0], p)))
    return " [%s]" % ", ".join(out) if out else ""


def gemv_spec(T):
    c = COMP[T] == 2
    return [("fold", "i"), ("Order", "i"), ("TransA", "i"), ("M", "i"), ("N", "i"), ("alpha", "p" if c else "f"), ("A", "p"), ("lda", "i"),
            ("X", "p"), ("incX", "i"), ("Y", "p"), ("incY", "i")]


def gemm_spec(T):
    c = COMP[T] == 2
    return [("fold", "i"), ("Order", "i"), ("TransA", "i"), ("TransB", "i"), ("M", "i"), ("N", "i"), ("K", "i"), ("alpha", "p" if c else "f"), ("A", "p"),
            ("lda", "i"), ("B", "p"), ("ldb", "i"), ("C", "p"), ("ldc", "i")]


def scalar(R, v):
    return (R.S.sub(v),) if R.c == 1 else tuple(R.at_(v, 0, k) for k in (0, 1))


def rule_bgemv(R, a, ret):
    args = [a[k] for k in "fold Order TransA M N alpha A lda X incX Y incY".split()]
    alpha = scalar(R, a["alpha"])
    args[5] = alpha
    want = R.expect_gemv(args)
    positive(R, a, "MN")
    got = R.contribs(R.S.body, a["fold"])
    finish_b(R, a, got, want, a["Y"].base, "gemv")


def rule_bgemm(R, a, ret):
    args = [a[k] for k in "fold Order TransA TransB M N K alpha A lda B ldb C ldc".split()]
    args[7] = scalar(R, a["alpha"])
    want = R.expect_gemm(args)
    positive(R, a, "MNK")
    got = R.contribs(R.S.body, a["fold"])
    finish_b(R, a, got, want, a["C"].base, "gemm")


def positive(R, a, names):
    for n in names:
        R.pos |= {x for x in a[n].atoms()} if isinstance(a[n], Poly) else set()
    R.pos |= a["fold"].atoms()


def finish_b(R, a, got, want, out, what):
    S = R.S
    for n, ls in flatten(S.body):
        if n.kind == "call" and not re.match(r"binnedBLAS_[dszc](m[dszc]dot[uc]?|b[dszc]gem[vm])$", n.name):
            raise Bad("P12 P13", "unexpected call of %s" % n.name, n.line)
        if n.kind == "call" and "gem" in n.name:
            i = 1
            if not n.args[i].is_const() or chr(int(n.args[i].cval())) not in "rR" or S.decide(S.canon("ieq", a["Order"] - ord("r"))) or S.decide(S.canon("ieq", a["Order"] - ord("R"))):
                raise Bad("P12", "%s calls itself without reaching the row-major case" % n.name, n.line)
    if len(got) > len(want):
        raise Bad("P12 P13", "%d groups of products are accumulated instead of %d" % (len(got), len(want)), got[-1].get("line"))
    if len(got) < len(want):
        raise Bad("P12 P13", "no product is accumulated")
    for g, w in zip(got, want):
        R.same_set(g, w, "P12 P13", what)
    R.memory({out})
    for n, ls in flatten(S.body):
        if n.kind in ("store", "fill", "copy") and R.dest(n).base is out:
            raise Bad("P13 P14", "the accumulators are stored to directly", n.line)


PAIR = frozenset(("P12", "P13"))


class SummTask:
    def __init__(s, prog, fn, spec, T, rule, tags, what, pos=("M", "N", "K", "fold"), part="", contracts=None, cost=0):
        s.prog, s.fn, s.spec, s.T, s.rule, s.tags, s.what, s.pos, s.part, s.contracts = prog, fn, spec, T, rule, frozenset(tags), what, pos, part, contracts
        s.cost = cost

    def run(s):
        np, ck, ni, bad = run_rule(s.prog, s.fn, s.spec, s.T, s.rule, s.pos, s.contracts)
        out = []
        if bad:
            for tags, msg, line in bad:
                t = s.tags if tags is None else frozenset(tags) & s.tags or s.tags
                if t & PAIR:  # a wrong product set and a wrong prior term are the same kind of wrong result
                    t |= PAIR & s.tags
                out.append(Result(t, s.fn, s.part or "all paths", s.what, False, "%s%s" % ("" if line is None else "line %s: " % line, msg)))
            return out
        for t in sorted(s.tags):
            out.append(Result(frozenset((t,)), s.fn, s.part or "all paths", s.what, True, "%d paths, %d index-set / bounds / lifetime obligations, %d instructions" % (np, ck, ni)))
        return out
